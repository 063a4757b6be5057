// Generated by tools/genr.py; do not edit.
pub mod s0 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        pub a: u32,
        pub b: N,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<N>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s1 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        pub a: String,
        pub b: (u8, u16),
        pub c: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<String>,
        pub b: Option<(u8, u16)>,
        pub c: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s2 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        pub zz: Cp,
        pub a: Cp,
        pub m: Cp,
        #[builder(default)]
        pub r#type: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub zz: Option<Cp>,
        pub a: Option<Cp>,
        pub m: Option<Cp>,
        pub r#type: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            zz: Default::default(),
            a: Default::default(),
            m: Default::default(),
            r#type: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            zz: match m.zz.clone() { Some(v) => v, None => { return Err("zz") } },
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            m: match m.m.clone() { Some(v) => v, None => { return Err("m") } },
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.zz == want.zz, 100);
                check(got.a == want.a, 101);
                check(got.m == want.m, 102);
                check(got.r#type == want.r#type, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.zz == m.zz, 200);
        check(b.a == m.a, 201);
        check(b.m == m.m, 202);
        check(b.r#type == m.r#type, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.zz = x.clone(); m.zz = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.m = x.clone(); m.m = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.zz(x.clone()); m.zz = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.m(x.clone()); m.m = Some(x); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.r#type(x.clone()); m.r#type = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s3 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(name = "b"))]
        pub a: u32,
        #[builder(setter(name = "a"))]
        pub b: u32,
        #[builder(setter(prefix = "set"))]
        pub c: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<u32>,
        pub c: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.a(x.clone()); m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.set_c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s4 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(prefix = "with"))]
    pub struct S {
        pub a: u32,
        #[builder(setter(prefix = "put"))]
        pub b: u32,
        #[builder(setter(name = "sea"))]
        pub c: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<u32>,
        pub c: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.with_a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.put_b(x.clone()); m.b = Some(x); }
                2 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.sea(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s5 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        pub a: u32,
        pub b: N,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<N>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: u32 = any_u32("v"); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: N = N(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s6 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        pub a: String,
        pub b: (u8, u16),
        pub c: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<String>,
        pub b: Option<(u8, u16)>,
        pub c: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s7 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        pub zz: Cp,
        pub a: Cp,
        pub m: Cp,
        #[builder(default)]
        pub r#type: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub zz: Option<Cp>,
        pub a: Option<Cp>,
        pub m: Option<Cp>,
        pub r#type: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            zz: Default::default(),
            a: Default::default(),
            m: Default::default(),
            r#type: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            zz: match m.zz.clone() { Some(v) => v, None => { return Err("zz") } },
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            m: match m.m.clone() { Some(v) => v, None => { return Err("m") } },
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.zz == want.zz, 100);
                check(got.a == want.a, 101);
                check(got.m == want.m, 102);
                check(got.r#type == want.r#type, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.zz == m.zz, 200);
        check(b.a == m.a, 201);
        check(b.m == m.m, 202);
        check(b.r#type == m.r#type, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.zz = x.clone(); m.zz = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.m = x.clone(); m.m = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.zz(x.clone()); m.zz = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.m(x.clone()); m.m = Some(x); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.r#type(x.clone()); m.r#type = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s8 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(name = "b"))]
        pub a: u32,
        #[builder(setter(name = "a"))]
        pub b: u32,
        #[builder(setter(prefix = "set"))]
        pub c: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<u32>,
        pub c: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.a(x.clone()); m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); b = b.set_c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s9 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "with"))]
    pub struct S {
        pub a: u32,
        #[builder(setter(prefix = "put"))]
        pub b: u32,
        #[builder(setter(name = "sea"))]
        pub c: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<u32>,
        pub c: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: u32 = any_u32("v"); b = b.with_a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.put_b(x.clone()); m.b = Some(x); }
                2 => { let x: N = N(any_u32("v")); b = b.sea(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s10 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        pub a: u32,
        pub b: N,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<N>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s11 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        pub a: String,
        pub b: (u8, u16),
        pub c: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<String>,
        pub b: Option<(u8, u16)>,
        pub c: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s12 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        pub zz: Cp,
        pub a: Cp,
        pub m: Cp,
        #[builder(default)]
        pub r#type: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub zz: Option<Cp>,
        pub a: Option<Cp>,
        pub m: Option<Cp>,
        pub r#type: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            zz: Default::default(),
            a: Default::default(),
            m: Default::default(),
            r#type: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            zz: match m.zz.clone() { Some(v) => v, None => { return Err("zz") } },
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            m: match m.m.clone() { Some(v) => v, None => { return Err("m") } },
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.zz == want.zz, 100);
                check(got.a == want.a, 101);
                check(got.m == want.m, 102);
                check(got.r#type == want.r#type, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.zz == m.zz, 200);
        check(b.a == m.a, 201);
        check(b.m == m.m, 202);
        check(b.r#type == m.r#type, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.zz = x.clone(); m.zz = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.m = x.clone(); m.m = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.zz(x.clone()); slots(&b, &m); b = nb; m.zz = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.m(x.clone()); slots(&b, &m); b = nb; m.m = Some(x); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.r#type(x.clone()); slots(&b, &m); b = nb; m.r#type = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s13 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(name = "b"))]
        pub a: u32,
        #[builder(setter(name = "a"))]
        pub b: u32,
        #[builder(setter(prefix = "set"))]
        pub c: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<u32>,
        pub c: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.set_c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s14 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(prefix = "with"))]
    pub struct S {
        pub a: u32,
        #[builder(setter(prefix = "put"))]
        pub b: u32,
        #[builder(setter(name = "sea"))]
        pub c: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<u32>,
        pub c: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.with_a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.put_b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.sea(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s15 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(pattern = "mutable")]
        pub a: Cp,
        #[builder(pattern = "owned")]
        pub b: Cp,
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => { return Err("d") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.d(x.clone()); m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s16 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(pattern = "mutable")]
        pub a: Cp,
        #[builder(pattern = "immutable")]
        pub b: Cp,
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => { return Err("d") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.d(x.clone()); m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s17 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(pattern = "owned")]
        pub a: Cp,
        #[builder(pattern = "mutable")]
        pub b: Cp,
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => { return Err("d") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.d(x.clone()); m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s18 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(pattern = "owned")]
        pub a: Cp,
        #[builder(pattern = "owned")]
        pub b: Cp,
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => { return Err("d") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.d(x.clone()); m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s19 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(pattern = "owned")]
        pub a: Cp,
        #[builder(pattern = "immutable")]
        pub b: Cp,
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => { return Err("d") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.d(x.clone()); m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s20 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(pattern = "immutable")]
        pub a: Cp,
        #[builder(pattern = "mutable")]
        pub b: Cp,
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => { return Err("d") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.d(x.clone()); m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s21 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(pattern = "immutable")]
        pub a: Cp,
        #[builder(pattern = "owned")]
        pub b: Cp,
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => { return Err("d") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.d(x.clone()); m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s22 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(pattern = "immutable")]
        pub a: Cp,
        #[builder(pattern = "immutable")]
        pub b: Cp,
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => { return Err("d") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.d(x.clone()); m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s23 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(pattern = "mutable")]
        pub a: Cp,
        #[builder(pattern = "mutable")]
        pub b: Cp,
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => { return Err("d") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); b = b.d(x.clone()); m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s24 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(pattern = "mutable")]
        pub a: Cp,
        #[builder(pattern = "owned")]
        pub b: Cp,
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => { return Err("d") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); b = b.d(x.clone()); m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s25 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(pattern = "mutable")]
        pub a: Cp,
        #[builder(pattern = "immutable")]
        pub b: Cp,
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => { return Err("d") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); b = b.d(x.clone()); m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s26 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(pattern = "owned")]
        pub a: Cp,
        #[builder(pattern = "mutable")]
        pub b: Cp,
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => { return Err("d") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); b = b.d(x.clone()); m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s27 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(pattern = "owned")]
        pub a: Cp,
        #[builder(pattern = "immutable")]
        pub b: Cp,
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => { return Err("d") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); b = b.d(x.clone()); m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s28 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(pattern = "immutable")]
        pub a: Cp,
        #[builder(pattern = "mutable")]
        pub b: Cp,
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => { return Err("d") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); b = b.d(x.clone()); m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s29 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(pattern = "immutable")]
        pub a: Cp,
        #[builder(pattern = "owned")]
        pub b: Cp,
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => { return Err("d") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); b = b.d(x.clone()); m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s30 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(pattern = "immutable")]
        pub a: Cp,
        #[builder(pattern = "immutable")]
        pub b: Cp,
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => { return Err("d") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); b = b.d(x.clone()); m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s31 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(pattern = "mutable")]
        pub a: Cp,
        #[builder(pattern = "mutable")]
        pub b: Cp,
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => { return Err("d") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.d(x.clone()); slots(&b, &m); b = nb; m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s32 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(pattern = "mutable")]
        pub a: Cp,
        #[builder(pattern = "owned")]
        pub b: Cp,
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => { return Err("d") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.d(x.clone()); slots(&b, &m); b = nb; m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s33 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(pattern = "mutable")]
        pub a: Cp,
        #[builder(pattern = "immutable")]
        pub b: Cp,
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => { return Err("d") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.d(x.clone()); slots(&b, &m); b = nb; m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s34 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(pattern = "owned")]
        pub a: Cp,
        #[builder(pattern = "mutable")]
        pub b: Cp,
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => { return Err("d") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.d(x.clone()); slots(&b, &m); b = nb; m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s35 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(pattern = "owned")]
        pub a: Cp,
        #[builder(pattern = "owned")]
        pub b: Cp,
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => { return Err("d") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.d(x.clone()); slots(&b, &m); b = nb; m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s36 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(pattern = "owned")]
        pub a: Cp,
        #[builder(pattern = "immutable")]
        pub b: Cp,
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => { return Err("d") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.d(x.clone()); slots(&b, &m); b = nb; m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s37 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(pattern = "immutable")]
        pub a: Cp,
        #[builder(pattern = "mutable")]
        pub b: Cp,
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => { return Err("d") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.d(x.clone()); slots(&b, &m); b = nb; m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s38 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(pattern = "immutable")]
        pub a: Cp,
        #[builder(pattern = "owned")]
        pub b: Cp,
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => { return Err("d") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.d(x.clone()); slots(&b, &m); b = nb; m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s39 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(pattern = "mutable", setter(into))]
        pub a: Cp,
        #[builder(pattern = "mutable", setter(strip_option))]
        pub b: Option<Cp>,
        #[builder(default)]
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Option<Cp>>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(Some(x)); }
                3 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.d(x.clone()); m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s40 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(pattern = "owned", setter(into))]
        pub a: Cp,
        #[builder(pattern = "owned", setter(strip_option))]
        pub b: Option<Cp>,
        #[builder(default)]
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Option<Cp>>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(Some(x)); }
                3 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.d(x.clone()); m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s41 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(pattern = "immutable", setter(into))]
        pub a: Cp,
        #[builder(pattern = "immutable", setter(strip_option))]
        pub b: Option<Cp>,
        #[builder(default)]
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Option<Cp>>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(Some(x)); }
                3 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.d(x.clone()); m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s42 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(pattern = "mutable", setter(into))]
        pub a: Cp,
        #[builder(pattern = "mutable", setter(strip_option))]
        pub b: Option<Cp>,
        #[builder(default)]
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Option<Cp>>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(Some(x)); }
                3 => { let x: u32 = any_u32("v"); b = b.d(x.clone()); m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s43 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(pattern = "owned", setter(into))]
        pub a: Cp,
        #[builder(pattern = "owned", setter(strip_option))]
        pub b: Option<Cp>,
        #[builder(default)]
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Option<Cp>>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(Some(x)); }
                3 => { let x: u32 = any_u32("v"); b = b.d(x.clone()); m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s44 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(pattern = "immutable", setter(into))]
        pub a: Cp,
        #[builder(pattern = "immutable", setter(strip_option))]
        pub b: Option<Cp>,
        #[builder(default)]
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Option<Cp>>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(Some(x)); }
                3 => { let x: u32 = any_u32("v"); b = b.d(x.clone()); m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s45 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(pattern = "mutable", setter(into))]
        pub a: Cp,
        #[builder(pattern = "mutable", setter(strip_option))]
        pub b: Option<Cp>,
        #[builder(default)]
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Option<Cp>>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(Some(x)); }
                3 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.d(x.clone()); slots(&b, &m); b = nb; m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s46 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(pattern = "owned", setter(into))]
        pub a: Cp,
        #[builder(pattern = "owned", setter(strip_option))]
        pub b: Option<Cp>,
        #[builder(default)]
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Option<Cp>>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(Some(x)); }
                3 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.d(x.clone()); slots(&b, &m); b = nb; m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s47 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(pattern = "immutable", setter(into))]
        pub a: Cp,
        #[builder(pattern = "immutable", setter(strip_option))]
        pub b: Option<Cp>,
        #[builder(default)]
        pub d: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Option<Cp>>,
        pub d: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            d: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            d: match m.d.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.d == want.d, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.d == m.d, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.d = x.clone(); m.d = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(Some(x)); }
                3 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.d(x.clone()); slots(&b, &m); b = nb; m.d = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s48 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    pub struct S {
        pub a: u32,
        pub b: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s49 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        pub f1: Cp,
        pub f0: Cp,
        pub f2: Cp,
        pub f9: Cp,
        pub f10: Cp,
        pub e: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub f1: Option<Cp>,
        pub f0: Option<Cp>,
        pub f2: Option<Cp>,
        pub f9: Option<Cp>,
        pub f10: Option<Cp>,
        pub e: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            f1: Default::default(),
            f0: Default::default(),
            f2: Default::default(),
            f9: Default::default(),
            f10: Default::default(),
            e: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            f1: match m.f1.clone() { Some(v) => v, None => { return Err("f1") } },
            f0: match m.f0.clone() { Some(v) => v, None => { return Err("f0") } },
            f2: match m.f2.clone() { Some(v) => v, None => { return Err("f2") } },
            f9: match m.f9.clone() { Some(v) => v, None => { return Err("f9") } },
            f10: match m.f10.clone() { Some(v) => v, None => { return Err("f10") } },
            e: match m.e.clone() { Some(v) => v, None => { return Err("e") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.f1 == want.f1, 100);
                check(got.f0 == want.f0, 101);
                check(got.f2 == want.f2, 102);
                check(got.f9 == want.f9, 103);
                check(got.f10 == want.f10, 104);
                check(got.e == want.e, 105);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.f1 == m.f1, 200);
        check(b.f0 == m.f0, 201);
        check(b.f2 == m.f2, 202);
        check(b.f9 == m.f9, 203);
        check(b.f10 == m.f10, 204);
        check(b.e == m.e, 205);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.f1 = x.clone(); m.f1 = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.f0 = x.clone(); m.f0 = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.f2 = x.clone(); m.f2 = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.f9 = x.clone(); m.f9 = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.f10 = x.clone(); m.f10 = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.e = x.clone(); m.e = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.f1(x.clone()); m.f1 = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.f0(x.clone()); m.f0 = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.f2(x.clone()); m.f2 = Some(x); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.f9(x.clone()); m.f9 = Some(x); }
                4 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.f10(x.clone()); m.f10 = Some(x); }
                5 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.e(x.clone()); m.e = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s50 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        pub f1: Cp,
        pub f0: Cp,
        pub f2: Cp,
        pub f9: Cp,
        pub f10: Cp,
        pub e: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub f1: Option<Cp>,
        pub f0: Option<Cp>,
        pub f2: Option<Cp>,
        pub f9: Option<Cp>,
        pub f10: Option<Cp>,
        pub e: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            f1: Default::default(),
            f0: Default::default(),
            f2: Default::default(),
            f9: Default::default(),
            f10: Default::default(),
            e: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            f1: match m.f1.clone() { Some(v) => v, None => { return Err("f1") } },
            f0: match m.f0.clone() { Some(v) => v, None => { return Err("f0") } },
            f2: match m.f2.clone() { Some(v) => v, None => { return Err("f2") } },
            f9: match m.f9.clone() { Some(v) => v, None => { return Err("f9") } },
            f10: match m.f10.clone() { Some(v) => v, None => { return Err("f10") } },
            e: match m.e.clone() { Some(v) => v, None => { return Err("e") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.f1 == want.f1, 100);
                check(got.f0 == want.f0, 101);
                check(got.f2 == want.f2, 102);
                check(got.f9 == want.f9, 103);
                check(got.f10 == want.f10, 104);
                check(got.e == want.e, 105);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.f1 == m.f1, 200);
        check(b.f0 == m.f0, 201);
        check(b.f2 == m.f2, 202);
        check(b.f9 == m.f9, 203);
        check(b.f10 == m.f10, 204);
        check(b.e == m.e, 205);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.f1 = x.clone(); m.f1 = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.f0 = x.clone(); m.f0 = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.f2 = x.clone(); m.f2 = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.f9 = x.clone(); m.f9 = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.f10 = x.clone(); m.f10 = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.e = x.clone(); m.e = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.f1(x.clone()); m.f1 = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); b = b.f0(x.clone()); m.f0 = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.f2(x.clone()); m.f2 = Some(x); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.f9(x.clone()); m.f9 = Some(x); }
                4 => { let x: Cp = Cp(any_u32("v")); b = b.f10(x.clone()); m.f10 = Some(x); }
                5 => { let x: Cp = Cp(any_u32("v")); b = b.e(x.clone()); m.e = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s51 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        pub f1: Cp,
        pub f0: Cp,
        pub f2: Cp,
        pub f9: Cp,
        pub f10: Cp,
        pub e: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub f1: Option<Cp>,
        pub f0: Option<Cp>,
        pub f2: Option<Cp>,
        pub f9: Option<Cp>,
        pub f10: Option<Cp>,
        pub e: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            f1: Default::default(),
            f0: Default::default(),
            f2: Default::default(),
            f9: Default::default(),
            f10: Default::default(),
            e: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            f1: match m.f1.clone() { Some(v) => v, None => { return Err("f1") } },
            f0: match m.f0.clone() { Some(v) => v, None => { return Err("f0") } },
            f2: match m.f2.clone() { Some(v) => v, None => { return Err("f2") } },
            f9: match m.f9.clone() { Some(v) => v, None => { return Err("f9") } },
            f10: match m.f10.clone() { Some(v) => v, None => { return Err("f10") } },
            e: match m.e.clone() { Some(v) => v, None => { return Err("e") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.f1 == want.f1, 100);
                check(got.f0 == want.f0, 101);
                check(got.f2 == want.f2, 102);
                check(got.f9 == want.f9, 103);
                check(got.f10 == want.f10, 104);
                check(got.e == want.e, 105);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.f1 == m.f1, 200);
        check(b.f0 == m.f0, 201);
        check(b.f2 == m.f2, 202);
        check(b.f9 == m.f9, 203);
        check(b.f10 == m.f10, 204);
        check(b.e == m.e, 205);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.f1 = x.clone(); m.f1 = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.f0 = x.clone(); m.f0 = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.f2 = x.clone(); m.f2 = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.f9 = x.clone(); m.f9 = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.f10 = x.clone(); m.f10 = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.e = x.clone(); m.e = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.f1(x.clone()); slots(&b, &m); b = nb; m.f1 = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.f0(x.clone()); slots(&b, &m); b = nb; m.f0 = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.f2(x.clone()); slots(&b, &m); b = nb; m.f2 = Some(x); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.f9(x.clone()); slots(&b, &m); b = nb; m.f9 = Some(x); }
                4 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.f10(x.clone()); slots(&b, &m); b = nb; m.f10 = Some(x); }
                5 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.e(x.clone()); slots(&b, &m); b = nb; m.e = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub const COUNT: usize = 52;
pub fn grid(extra: usize) {
    reset();
    match choice("cfg", COUNT) {
        0 => s0::run(4 + extra, false),
        1 => s1::run(3 + extra, false),
        2 => s2::run(4 + extra, false),
        3 => s3::run(4 + extra, false),
        4 => s4::run(4 + extra, false),
        5 => s5::run(4 + extra, false),
        6 => s6::run(3 + extra, false),
        7 => s7::run(4 + extra, false),
        8 => s8::run(4 + extra, false),
        9 => s9::run(4 + extra, false),
        10 => s10::run(4 + extra, false),
        11 => s11::run(3 + extra, false),
        12 => s12::run(4 + extra, false),
        13 => s13::run(4 + extra, false),
        14 => s14::run(4 + extra, false),
        15 => s15::run(3 + extra, false),
        16 => s16::run(3 + extra, false),
        17 => s17::run(3 + extra, false),
        18 => s18::run(3 + extra, false),
        19 => s19::run(3 + extra, false),
        20 => s20::run(3 + extra, false),
        21 => s21::run(3 + extra, false),
        22 => s22::run(3 + extra, false),
        23 => s23::run(3 + extra, false),
        24 => s24::run(3 + extra, false),
        25 => s25::run(3 + extra, false),
        26 => s26::run(3 + extra, false),
        27 => s27::run(3 + extra, false),
        28 => s28::run(3 + extra, false),
        29 => s29::run(3 + extra, false),
        30 => s30::run(3 + extra, false),
        31 => s31::run(3 + extra, false),
        32 => s32::run(3 + extra, false),
        33 => s33::run(3 + extra, false),
        34 => s34::run(3 + extra, false),
        35 => s35::run(3 + extra, false),
        36 => s36::run(3 + extra, false),
        37 => s37::run(3 + extra, false),
        38 => s38::run(3 + extra, false),
        39 => s39::run(3 + extra, false),
        40 => s40::run(3 + extra, false),
        41 => s41::run(3 + extra, false),
        42 => s42::run(3 + extra, false),
        43 => s43::run(3 + extra, false),
        44 => s44::run(3 + extra, false),
        45 => s45::run(3 + extra, false),
        46 => s46::run(3 + extra, false),
        47 => s47::run(3 + extra, false),
        48 => s48::run(4 + extra, false),
        49 => s49::run(3 + extra, false),
        50 => s50::run(3 + extra, false),
        _ => s51::run(3 + extra, false),
    }
}
pub fn step(k: usize) {
    reset();
    match choice("cfg", COUNT) {
        0 => s0::run(k, true),
        1 => s1::run(k, true),
        2 => s2::run(k, true),
        3 => s3::run(k, true),
        4 => s4::run(k, true),
        5 => s5::run(k, true),
        6 => s6::run(k, true),
        7 => s7::run(k, true),
        8 => s8::run(k, true),
        9 => s9::run(k, true),
        10 => s10::run(k, true),
        11 => s11::run(k, true),
        12 => s12::run(k, true),
        13 => s13::run(k, true),
        14 => s14::run(k, true),
        15 => s15::run(k, true),
        16 => s16::run(k, true),
        17 => s17::run(k, true),
        18 => s18::run(k, true),
        19 => s19::run(k, true),
        20 => s20::run(k, true),
        21 => s21::run(k, true),
        22 => s22::run(k, true),
        23 => s23::run(k, true),
        24 => s24::run(k, true),
        25 => s25::run(k, true),
        26 => s26::run(k, true),
        27 => s27::run(k, true),
        28 => s28::run(k, true),
        29 => s29::run(k, true),
        30 => s30::run(k, true),
        31 => s31::run(k, true),
        32 => s32::run(k, true),
        33 => s33::run(k, true),
        34 => s34::run(k, true),
        35 => s35::run(k, true),
        36 => s36::run(k, true),
        37 => s37::run(k, true),
        38 => s38::run(k, true),
        39 => s39::run(k, true),
        40 => s40::run(k, true),
        41 => s41::run(k, true),
        42 => s42::run(k, true),
        43 => s43::run(k, true),
        44 => s44::run(k, true),
        45 => s45::run(k, true),
        46 => s46::run(k, true),
        47 => s47::run(k, true),
        48 => s48::run(k, true),
        49 => s49::run(k, true),
        50 => s50::run(k, true),
        _ => s51::run(k, true),
    }
}
