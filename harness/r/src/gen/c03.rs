// Generated by tools/genr.py; do not edit.
pub mod s0 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        #[builder(default)]
        pub b: u32,
        #[builder(default = "Some(N(5))")]
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => Some(N(5)) },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s1 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(default = N(78))]
        pub a: N,
        #[builder(default = 3 + 4)]
        pub b: u32,
        #[builder(default)]
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(78) },
            b: match m.b.clone() { Some(v) => v, None => 7 },
            c: match m.c.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s2 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(default = 4)]
        pub b: u32,
        #[builder(default = "self.b.map(|x| x.wrapping_add(1)).unwrap_or(9)")]
        pub a: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<u32>,
        pub a: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => 4 },
            a: match m.a.clone() { Some(v) => v, None => m.b.map(|x| x.wrapping_add(1)).unwrap_or(9) },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.a == want.a, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.a == m.a, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s3 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(default = "self.b.map(|x| x.wrapping_add(1)).unwrap_or(9)")]
        pub a: u32,
        pub b: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => m.b.map(|x| x.wrapping_add(1)).unwrap_or(9) },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s4 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s5 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", default)]
    pub struct S {
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s6 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s7 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s8 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", default)]
    pub struct S {
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s9 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s10 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s11 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", default)]
    pub struct S {
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s12 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s13 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(default)]
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s14 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", default)]
    pub struct S {
        #[builder(default)]
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s15 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        #[builder(default)]
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s16 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(default)]
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s17 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", default)]
    pub struct S {
        #[builder(default)]
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s18 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        #[builder(default)]
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s19 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(default)]
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s20 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", default)]
    pub struct S {
        #[builder(default)]
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s21 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        #[builder(default)]
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s22 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s23 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", default)]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s24 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s25 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s26 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", default)]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s27 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s28 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s29 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", default)]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s30 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s31 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", default = "let v = 40; S { a: N(v), b: v }")]
    pub struct S {
        pub a: N,
        #[builder(default = "let x = 20; x + 1")]
        pub b: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(40), b: 40 };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => 21 },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s32 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", default = "S { a: N(1), b: 2, c: None }")]
    pub struct S {
        #[builder(setter(skip), default = "N(77)")]
        pub a: N,
        #[builder(setter(skip))]
        pub b: u32,
        #[builder(setter(strip_option), default = "Some(N(5))")]
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: None };
        let _ = &dflt;
        Ok(S {
            a: N(77),
            b: dflt.b.clone(),
            c: match m.c.clone() { Some(v) => v, None => Some(N(5)) },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 2) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.c(x.clone()); m.c = Some(Some(x)); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s33 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", default = "S { a: Cp(1), b: 2, c: None }")]
    pub struct S {
        #[builder(field(ty = "Cp"))]
        pub a: Cp,
        #[builder(field(build = "self.b.unwrap_or(6)"))]
        pub b: u32,
        #[builder(setter(into))]
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Cp,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: Cp(1), b: 2, c: None };
        let _ = &dflt;
        Ok(S {
            a: m.a.clone(),
            b: m.b.unwrap_or(6),
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Cp = Cp(any_u32("v"));
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = x; }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                3 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); let _: &mut SBuilder = b.c(x.clone()); m.c = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s34 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(each = "item"), default = "vec![N(1), N(2)]")]
        pub a: Vec<N>,
        #[builder(try_setter, default = "8")]
        pub b: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => vec![N(1), N(2)] },
            b: match m.b.clone() { Some(v) => v, None => 8 },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                2 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s35 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(strip_option), default = "Some(None)")]
        pub a: Option<Option<N>>,
        #[builder(default = "Some(Some(N(4)))")]
        pub b: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Option<N>>>,
        pub b: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Some(None) },
            b: match m.b.clone() { Some(v) => v, None => Some(Some(N(4))) },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s36 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", default = "S { a: Cp(1), b: Cp(2), c: Some(Cp(3)) }")]
    pub struct S {
        #[builder(pattern = "owned", default = "Cp(9)")]
        pub a: Cp,
        #[builder(pattern = "owned")]
        pub b: Cp,
        #[builder(pattern = "owned", default)]
        pub c: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub c: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: Cp(1), b: Cp(2), c: Some(Cp(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Cp(9) },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s37 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", default = "S { a: Cp(1), b: Cp(2), c: Some(Cp(3)) }")]
    pub struct S {
        #[builder(pattern = "immutable", default = "Cp(9)")]
        pub a: Cp,
        #[builder(pattern = "immutable")]
        pub b: Cp,
        #[builder(pattern = "immutable", default)]
        pub c: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub c: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: Cp(1), b: Cp(2), c: Some(Cp(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Cp(9) },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s38 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        #[builder(default)]
        pub b: u32,
        #[builder(default = "Some(N(5))")]
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => Some(N(5)) },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s39 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(default = N(78))]
        pub a: N,
        #[builder(default = 3 + 4)]
        pub b: u32,
        #[builder(default)]
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(78) },
            b: match m.b.clone() { Some(v) => v, None => 7 },
            c: match m.c.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s40 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(default = 4)]
        pub b: u32,
        #[builder(default = "self.b.map(|x| x.wrapping_add(1)).unwrap_or(9)")]
        pub a: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<u32>,
        pub a: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => 4 },
            a: match m.a.clone() { Some(v) => v, None => m.b.map(|x| x.wrapping_add(1)).unwrap_or(9) },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.a == want.a, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.a == m.a, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.a(x.clone()); m.a = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s41 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(default = "self.b.map(|x| x.wrapping_add(1)).unwrap_or(9)")]
        pub a: u32,
        pub b: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => m.b.map(|x| x.wrapping_add(1)).unwrap_or(9) },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: u32 = any_u32("v"); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s42 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s43 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", default)]
    pub struct S {
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s44 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s45 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s46 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", default)]
    pub struct S {
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s47 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s48 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s49 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", default)]
    pub struct S {
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s50 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s51 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(default)]
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s52 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", default)]
    pub struct S {
        #[builder(default)]
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s53 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        #[builder(default)]
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s54 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(default)]
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s55 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", default)]
    pub struct S {
        #[builder(default)]
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s56 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        #[builder(default)]
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s57 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(default)]
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s58 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", default)]
    pub struct S {
        #[builder(default)]
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s59 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        #[builder(default)]
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s60 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s61 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", default)]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s62 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s63 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s64 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", default)]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s65 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s66 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s67 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", default)]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s68 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s69 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", default = "let v = 40; S { a: N(v), b: v }")]
    pub struct S {
        pub a: N,
        #[builder(default = "let x = 20; x + 1")]
        pub b: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(40), b: 40 };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => 21 },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s70 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", default = "S { a: N(1), b: 2, c: None }")]
    pub struct S {
        #[builder(setter(skip), default = "N(77)")]
        pub a: N,
        #[builder(setter(skip))]
        pub b: u32,
        #[builder(setter(strip_option), default = "Some(N(5))")]
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: None };
        let _ = &dflt;
        Ok(S {
            a: N(77),
            b: dflt.b.clone(),
            c: match m.c.clone() { Some(v) => v, None => Some(N(5)) },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 2) {
                0 => { let x: N = N(any_u32("v")); b = b.c(x.clone()); m.c = Some(Some(x)); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s71 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", default = "S { a: Cp(1), b: 2, c: None }")]
    pub struct S {
        #[builder(field(ty = "Cp"))]
        pub a: Cp,
        #[builder(field(build = "self.b.unwrap_or(6)"))]
        pub b: u32,
        #[builder(setter(into))]
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Cp,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: Cp(1), b: 2, c: None };
        let _ = &dflt;
        Ok(S {
            a: m.a.clone(),
            b: m.b.unwrap_or(6),
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Cp = Cp(any_u32("v"));
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = x; }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                3 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); b = b.c(x.clone()); m.c = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s72 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(each = "item"), default = "vec![N(1), N(2)]")]
        pub a: Vec<N>,
        #[builder(try_setter, default = "8")]
        pub b: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => vec![N(1), N(2)] },
            b: match m.b.clone() { Some(v) => v, None => 8 },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                2 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s73 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(strip_option), default = "Some(None)")]
        pub a: Option<Option<N>>,
        #[builder(default = "Some(Some(N(4)))")]
        pub b: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Option<N>>>,
        pub b: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Some(None) },
            b: match m.b.clone() { Some(v) => v, None => Some(Some(N(4))) },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s74 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", default = "S { a: Cp(1), b: Cp(2), c: Some(Cp(3)) }")]
    pub struct S {
        #[builder(pattern = "mutable", default = "Cp(9)")]
        pub a: Cp,
        #[builder(pattern = "mutable")]
        pub b: Cp,
        #[builder(pattern = "mutable", default)]
        pub c: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub c: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: Cp(1), b: Cp(2), c: Some(Cp(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Cp(9) },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s75 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", default = "S { a: Cp(1), b: Cp(2), c: Some(Cp(3)) }")]
    pub struct S {
        #[builder(pattern = "immutable", default = "Cp(9)")]
        pub a: Cp,
        #[builder(pattern = "immutable")]
        pub b: Cp,
        #[builder(pattern = "immutable", default)]
        pub c: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub c: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: Cp(1), b: Cp(2), c: Some(Cp(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Cp(9) },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s76 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        #[builder(default)]
        pub b: u32,
        #[builder(default = "Some(N(5))")]
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => Some(N(5)) },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s77 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(default = N(78))]
        pub a: N,
        #[builder(default = 3 + 4)]
        pub b: u32,
        #[builder(default)]
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(78) },
            b: match m.b.clone() { Some(v) => v, None => 7 },
            c: match m.c.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s78 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(default = 4)]
        pub b: u32,
        #[builder(default = "self.b.map(|x| x.wrapping_add(1)).unwrap_or(9)")]
        pub a: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<u32>,
        pub a: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => 4 },
            a: match m.a.clone() { Some(v) => v, None => m.b.map(|x| x.wrapping_add(1)).unwrap_or(9) },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.a == want.a, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.a == m.a, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s79 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(default = "self.b.map(|x| x.wrapping_add(1)).unwrap_or(9)")]
        pub a: u32,
        pub b: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => m.b.map(|x| x.wrapping_add(1)).unwrap_or(9) },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s80 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s81 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "immutable", default)]
    pub struct S {
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s82 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s83 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s84 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "immutable", default)]
    pub struct S {
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s85 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s86 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s87 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "immutable", default)]
    pub struct S {
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s88 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s89 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(default)]
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s90 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "immutable", default)]
    pub struct S {
        #[builder(default)]
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s91 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        #[builder(default)]
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s92 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(default)]
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s93 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "immutable", default)]
    pub struct S {
        #[builder(default)]
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s94 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        #[builder(default)]
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s95 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(default)]
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s96 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "immutable", default)]
    pub struct S {
        #[builder(default)]
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s97 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        #[builder(default)]
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s98 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s99 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "immutable", default)]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s100 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s101 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s102 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "immutable", default)]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s103 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        #[builder(default)]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s104 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s105 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "immutable", default)]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s106 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        #[builder(default = "N(77)")]
        pub a: N,
        #[builder(default = "21")]
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => 21 },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s107 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", default = "let v = 40; S { a: N(v), b: v }")]
    pub struct S {
        pub a: N,
        #[builder(default = "let x = 20; x + 1")]
        pub b: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(40), b: 40 };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => 21 },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s108 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", default = "S { a: N(1), b: 2, c: None }")]
    pub struct S {
        #[builder(setter(skip), default = "N(77)")]
        pub a: N,
        #[builder(setter(skip))]
        pub b: u32,
        #[builder(setter(strip_option), default = "Some(N(5))")]
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: None };
        let _ = &dflt;
        Ok(S {
            a: N(77),
            b: dflt.b.clone(),
            c: match m.c.clone() { Some(v) => v, None => Some(N(5)) },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 2) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(Some(x)); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s109 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", default = "S { a: Cp(1), b: 2, c: None }")]
    pub struct S {
        #[builder(field(ty = "Cp"))]
        pub a: Cp,
        #[builder(field(build = "self.b.unwrap_or(6)"))]
        pub b: u32,
        #[builder(setter(into))]
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Cp,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: Cp(1), b: 2, c: None };
        let _ = &dflt;
        Ok(S {
            a: m.a.clone(),
            b: m.b.unwrap_or(6),
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Cp = Cp(any_u32("v"));
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = x; }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                3 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s110 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(each = "item"), default = "vec![N(1), N(2)]")]
        pub a: Vec<N>,
        #[builder(try_setter, default = "8")]
        pub b: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => vec![N(1), N(2)] },
            b: match m.b.clone() { Some(v) => v, None => 8 },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                2 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s111 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(strip_option), default = "Some(None)")]
        pub a: Option<Option<N>>,
        #[builder(default = "Some(Some(N(4)))")]
        pub b: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Option<N>>>,
        pub b: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Some(None) },
            b: match m.b.clone() { Some(v) => v, None => Some(Some(N(4))) },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                1 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s112 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", default = "S { a: Cp(1), b: Cp(2), c: Some(Cp(3)) }")]
    pub struct S {
        #[builder(pattern = "mutable", default = "Cp(9)")]
        pub a: Cp,
        #[builder(pattern = "mutable")]
        pub b: Cp,
        #[builder(pattern = "mutable", default)]
        pub c: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub c: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: Cp(1), b: Cp(2), c: Some(Cp(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Cp(9) },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s113 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", default = "S { a: Cp(1), b: Cp(2), c: Some(Cp(3)) }")]
    pub struct S {
        #[builder(pattern = "owned", default = "Cp(9)")]
        pub a: Cp,
        #[builder(pattern = "owned")]
        pub b: Cp,
        #[builder(pattern = "owned", default)]
        pub c: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub c: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: Cp(1), b: Cp(2), c: Some(Cp(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Cp(9) },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub const COUNT: usize = 114;
pub fn grid(extra: usize) {
    reset();
    match choice("cfg", COUNT) {
        0 => s0::run(3 + extra, false),
        1 => s1::run(3 + extra, false),
        2 => s2::run(3 + extra, false),
        3 => s3::run(3 + extra, false),
        4 => s4::run(2 + extra, false),
        5 => s5::run(2 + extra, false),
        6 => s6::run(2 + extra, false),
        7 => s7::run(2 + extra, false),
        8 => s8::run(2 + extra, false),
        9 => s9::run(2 + extra, false),
        10 => s10::run(2 + extra, false),
        11 => s11::run(2 + extra, false),
        12 => s12::run(2 + extra, false),
        13 => s13::run(2 + extra, false),
        14 => s14::run(2 + extra, false),
        15 => s15::run(2 + extra, false),
        16 => s16::run(2 + extra, false),
        17 => s17::run(2 + extra, false),
        18 => s18::run(2 + extra, false),
        19 => s19::run(2 + extra, false),
        20 => s20::run(2 + extra, false),
        21 => s21::run(2 + extra, false),
        22 => s22::run(2 + extra, false),
        23 => s23::run(2 + extra, false),
        24 => s24::run(2 + extra, false),
        25 => s25::run(2 + extra, false),
        26 => s26::run(2 + extra, false),
        27 => s27::run(2 + extra, false),
        28 => s28::run(2 + extra, false),
        29 => s29::run(2 + extra, false),
        30 => s30::run(2 + extra, false),
        31 => s31::run(2 + extra, false),
        32 => s32::run(2 + extra, false),
        33 => s33::run(3 + extra, false),
        34 => s34::run(3 + extra, false),
        35 => s35::run(2 + extra, false),
        36 => s36::run(2 + extra, false),
        37 => s37::run(2 + extra, false),
        38 => s38::run(3 + extra, false),
        39 => s39::run(3 + extra, false),
        40 => s40::run(3 + extra, false),
        41 => s41::run(3 + extra, false),
        42 => s42::run(2 + extra, false),
        43 => s43::run(2 + extra, false),
        44 => s44::run(2 + extra, false),
        45 => s45::run(2 + extra, false),
        46 => s46::run(2 + extra, false),
        47 => s47::run(2 + extra, false),
        48 => s48::run(2 + extra, false),
        49 => s49::run(2 + extra, false),
        50 => s50::run(2 + extra, false),
        51 => s51::run(2 + extra, false),
        52 => s52::run(2 + extra, false),
        53 => s53::run(2 + extra, false),
        54 => s54::run(2 + extra, false),
        55 => s55::run(2 + extra, false),
        56 => s56::run(2 + extra, false),
        57 => s57::run(2 + extra, false),
        58 => s58::run(2 + extra, false),
        59 => s59::run(2 + extra, false),
        60 => s60::run(2 + extra, false),
        61 => s61::run(2 + extra, false),
        62 => s62::run(2 + extra, false),
        63 => s63::run(2 + extra, false),
        64 => s64::run(2 + extra, false),
        65 => s65::run(2 + extra, false),
        66 => s66::run(2 + extra, false),
        67 => s67::run(2 + extra, false),
        68 => s68::run(2 + extra, false),
        69 => s69::run(2 + extra, false),
        70 => s70::run(2 + extra, false),
        71 => s71::run(3 + extra, false),
        72 => s72::run(3 + extra, false),
        73 => s73::run(2 + extra, false),
        74 => s74::run(2 + extra, false),
        75 => s75::run(2 + extra, false),
        76 => s76::run(3 + extra, false),
        77 => s77::run(3 + extra, false),
        78 => s78::run(3 + extra, false),
        79 => s79::run(3 + extra, false),
        80 => s80::run(2 + extra, false),
        81 => s81::run(2 + extra, false),
        82 => s82::run(2 + extra, false),
        83 => s83::run(2 + extra, false),
        84 => s84::run(2 + extra, false),
        85 => s85::run(2 + extra, false),
        86 => s86::run(2 + extra, false),
        87 => s87::run(2 + extra, false),
        88 => s88::run(2 + extra, false),
        89 => s89::run(2 + extra, false),
        90 => s90::run(2 + extra, false),
        91 => s91::run(2 + extra, false),
        92 => s92::run(2 + extra, false),
        93 => s93::run(2 + extra, false),
        94 => s94::run(2 + extra, false),
        95 => s95::run(2 + extra, false),
        96 => s96::run(2 + extra, false),
        97 => s97::run(2 + extra, false),
        98 => s98::run(2 + extra, false),
        99 => s99::run(2 + extra, false),
        100 => s100::run(2 + extra, false),
        101 => s101::run(2 + extra, false),
        102 => s102::run(2 + extra, false),
        103 => s103::run(2 + extra, false),
        104 => s104::run(2 + extra, false),
        105 => s105::run(2 + extra, false),
        106 => s106::run(2 + extra, false),
        107 => s107::run(2 + extra, false),
        108 => s108::run(2 + extra, false),
        109 => s109::run(3 + extra, false),
        110 => s110::run(3 + extra, false),
        111 => s111::run(2 + extra, false),
        112 => s112::run(2 + extra, false),
        _ => s113::run(2 + extra, false),
    }
}
pub fn step(k: usize) {
    reset();
    match choice("cfg", COUNT) {
        0 => s0::run(k, true),
        1 => s1::run(k, true),
        2 => s2::run(k, true),
        3 => s3::run(k, true),
        4 => s4::run(k, true),
        5 => s5::run(k, true),
        6 => s6::run(k, true),
        7 => s7::run(k, true),
        8 => s8::run(k, true),
        9 => s9::run(k, true),
        10 => s10::run(k, true),
        11 => s11::run(k, true),
        12 => s12::run(k, true),
        13 => s13::run(k, true),
        14 => s14::run(k, true),
        15 => s15::run(k, true),
        16 => s16::run(k, true),
        17 => s17::run(k, true),
        18 => s18::run(k, true),
        19 => s19::run(k, true),
        20 => s20::run(k, true),
        21 => s21::run(k, true),
        22 => s22::run(k, true),
        23 => s23::run(k, true),
        24 => s24::run(k, true),
        25 => s25::run(k, true),
        26 => s26::run(k, true),
        27 => s27::run(k, true),
        28 => s28::run(k, true),
        29 => s29::run(k, true),
        30 => s30::run(k, true),
        31 => s31::run(k, true),
        32 => s32::run(k, true),
        33 => s33::run(k, true),
        34 => s34::run(k, true),
        35 => s35::run(k, true),
        36 => s36::run(k, true),
        37 => s37::run(k, true),
        38 => s38::run(k, true),
        39 => s39::run(k, true),
        40 => s40::run(k, true),
        41 => s41::run(k, true),
        42 => s42::run(k, true),
        43 => s43::run(k, true),
        44 => s44::run(k, true),
        45 => s45::run(k, true),
        46 => s46::run(k, true),
        47 => s47::run(k, true),
        48 => s48::run(k, true),
        49 => s49::run(k, true),
        50 => s50::run(k, true),
        51 => s51::run(k, true),
        52 => s52::run(k, true),
        53 => s53::run(k, true),
        54 => s54::run(k, true),
        55 => s55::run(k, true),
        56 => s56::run(k, true),
        57 => s57::run(k, true),
        58 => s58::run(k, true),
        59 => s59::run(k, true),
        60 => s60::run(k, true),
        61 => s61::run(k, true),
        62 => s62::run(k, true),
        63 => s63::run(k, true),
        64 => s64::run(k, true),
        65 => s65::run(k, true),
        66 => s66::run(k, true),
        67 => s67::run(k, true),
        68 => s68::run(k, true),
        69 => s69::run(k, true),
        70 => s70::run(k, true),
        71 => s71::run(k, true),
        72 => s72::run(k, true),
        73 => s73::run(k, true),
        74 => s74::run(k, true),
        75 => s75::run(k, true),
        76 => s76::run(k, true),
        77 => s77::run(k, true),
        78 => s78::run(k, true),
        79 => s79::run(k, true),
        80 => s80::run(k, true),
        81 => s81::run(k, true),
        82 => s82::run(k, true),
        83 => s83::run(k, true),
        84 => s84::run(k, true),
        85 => s85::run(k, true),
        86 => s86::run(k, true),
        87 => s87::run(k, true),
        88 => s88::run(k, true),
        89 => s89::run(k, true),
        90 => s90::run(k, true),
        91 => s91::run(k, true),
        92 => s92::run(k, true),
        93 => s93::run(k, true),
        94 => s94::run(k, true),
        95 => s95::run(k, true),
        96 => s96::run(k, true),
        97 => s97::run(k, true),
        98 => s98::run(k, true),
        99 => s99::run(k, true),
        100 => s100::run(k, true),
        101 => s101::run(k, true),
        102 => s102::run(k, true),
        103 => s103::run(k, true),
        104 => s104::run(k, true),
        105 => s105::run(k, true),
        106 => s106::run(k, true),
        107 => s107::run(k, true),
        108 => s108::run(k, true),
        109 => s109::run(k, true),
        110 => s110::run(k, true),
        111 => s111::run(k, true),
        112 => s112::run(k, true),
        _ => s113::run(k, true),
    }
}
