// Generated by tools/genr.py; do not edit.
pub mod s0 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(each = "item"))]
        pub a: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s1 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(each = "item", into))]
        pub a: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s2 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(each(name = "item")))]
        pub a: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s3 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(each(name = "item"), into))]
        pub a: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s4 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(each(name = "item", into)))]
        pub a: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s5 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(each(name = "item", into), into))]
        pub a: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s6 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(each = "item"))]
        pub a: Coll,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Coll>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s7 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(each(name = "item")))]
        pub a: Coll,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Coll>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s8 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(each(name = "item", into)))]
        pub a: Coll,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Coll>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s9 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(each = "item", strip_option))]
        pub a: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Vec<N> = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s10 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(each = "item", strip_option, into))]
        pub a: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Vec<N> = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s11 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(each(name = "item"), strip_option))]
        pub a: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Vec<N> = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s12 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(each(name = "item"), strip_option, into))]
        pub a: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Vec<N> = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s13 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(each(name = "item", into), strip_option))]
        pub a: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Vec<N> = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s14 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(each(name = "item", into), strip_option, into))]
        pub a: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Vec<N> = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s15 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(each = "item", strip_option))]
        pub a: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Coll = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s16 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(each(name = "item"), strip_option))]
        pub a: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Coll = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s17 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(each(name = "item", into), strip_option))]
        pub a: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Coll = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s18 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(each = "item", name = "all_items"))]
        pub a: Vec<N>,
        #[builder(setter(each(name = "push_b", into), prefix = "set"))]
        pub b: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.all_items(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.set_b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.push_b(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.b, Default::default); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s19 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(each = "item"), default = "vec![N(8), N(9)]")]
        pub a: Vec<N>,
        #[builder(setter(each(name = "add", into)), default = "Coll { items: [5; 6], len: 2, origin: 9 }")]
        pub b: Coll,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Coll>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => vec![N(8), N(9)] },
            b: match m.b.clone() { Some(v) => v, None => Coll { items: [5; 6], len: 2, origin: 9 } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                2 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.add(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.b, Default::default); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s20 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(strip_option), default = "S { a: vec![N(1)], b: Some(vec![N(2)]) }")]
    pub struct S {
        #[builder(setter(each = "item"))]
        pub a: Vec<N>,
        #[builder(setter(each = "opt"))]
        pub b: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: vec![N(1)], b: Some(vec![N(2)]) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.b(x.clone()); m.b = Some(Some(x)); }
                3 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.opt(x.clone()); { let c: &mut Vec<N> = (m.b.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s21 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(into))]
    pub struct S {
        #[builder(setter(each = "item"), try_setter)]
        pub a: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s22 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(skip))]
    pub struct S {
        #[builder(setter(each = "item"))]
        pub a: Vec<N>,
        pub b: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: Default::default(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s23 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(each(name = "item", into)))]
        pub a: Coll,
        #[builder(setter(each = "other"))]
        pub b: Coll,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Coll>,
        pub b: Option<Coll>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                2 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let _: &mut SBuilder = b.other(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.b, Default::default); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s24 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(pattern = "owned", setter(each = "item"))]
        pub a: Coll,
        #[builder(pattern = "owned", setter(each(name = "oitem", into), strip_option))]
        pub b: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Coll>,
        pub b: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); b = b.item(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                2 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.b(x.clone()); m.b = Some(Some(x)); }
                3 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.oitem(x.clone()); { let c: &mut Coll = (m.b.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s25 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(pattern = "immutable", setter(each = "item"))]
        pub a: Coll,
        #[builder(pattern = "immutable", setter(each(name = "oitem", into), strip_option))]
        pub b: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Coll>,
        pub b: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Coll = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                2 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(Some(x)); }
                3 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.oitem(x.clone()); slots(&b, &m); b = nb; { let c: &mut Coll = (m.b.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s26 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(pattern = "immutable", setter(each = "item"))]
        pub a: Vec<N>,
        #[builder(pattern = "immutable", setter(each(name = "oitem", into)))]
        pub b: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.oitem(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.b, Default::default); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s27 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(each = "item"))]
        pub a: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s28 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(each = "item", into))]
        pub a: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s29 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(each(name = "item")))]
        pub a: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s30 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(each(name = "item"), into))]
        pub a: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s31 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(each(name = "item", into)))]
        pub a: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s32 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(each(name = "item", into), into))]
        pub a: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s33 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(each = "item"))]
        pub a: Coll,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Coll>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); b = b.item(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s34 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(each(name = "item")))]
        pub a: Coll,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Coll>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); b = b.item(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s35 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(each(name = "item", into)))]
        pub a: Coll,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Coll>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.item(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s36 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(each = "item", strip_option))]
        pub a: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.item(x.clone()); { let c: &mut Vec<N> = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s37 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(each = "item", strip_option, into))]
        pub a: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.a(x.clone()); m.a = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.item(x.clone()); { let c: &mut Vec<N> = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s38 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(each(name = "item"), strip_option))]
        pub a: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.item(x.clone()); { let c: &mut Vec<N> = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s39 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(each(name = "item"), strip_option, into))]
        pub a: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.a(x.clone()); m.a = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.item(x.clone()); { let c: &mut Vec<N> = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s40 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(each(name = "item", into), strip_option))]
        pub a: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.item(x.clone()); { let c: &mut Vec<N> = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s41 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(each(name = "item", into), strip_option, into))]
        pub a: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.a(x.clone()); m.a = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.item(x.clone()); { let c: &mut Vec<N> = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s42 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(each = "item", strip_option))]
        pub a: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); b = b.item(x.clone()); { let c: &mut Coll = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s43 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(each(name = "item"), strip_option))]
        pub a: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); b = b.item(x.clone()); { let c: &mut Coll = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s44 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(each(name = "item", into), strip_option))]
        pub a: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.item(x.clone()); { let c: &mut Coll = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s45 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(each = "item", name = "all_items"))]
        pub a: Vec<N>,
        #[builder(setter(each(name = "push_b", into), prefix = "set"))]
        pub b: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.all_items(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.set_b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.push_b(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.b, Default::default); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s46 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(each = "item"), default = "vec![N(8), N(9)]")]
        pub a: Vec<N>,
        #[builder(setter(each(name = "add", into)), default = "Coll { items: [5; 6], len: 2, origin: 9 }")]
        pub b: Coll,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Coll>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => vec![N(8), N(9)] },
            b: match m.b.clone() { Some(v) => v, None => Coll { items: [5; 6], len: 2, origin: 9 } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                2 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.add(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.b, Default::default); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s47 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(strip_option), default = "S { a: vec![N(1)], b: Some(vec![N(2)]) }")]
    pub struct S {
        #[builder(setter(each = "item"))]
        pub a: Vec<N>,
        #[builder(setter(each = "opt"))]
        pub b: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: vec![N(1)], b: Some(vec![N(2)]) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.b(x.clone()); m.b = Some(Some(x)); }
                3 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.opt(x.clone()); { let c: &mut Vec<N> = (m.b.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s48 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into))]
    pub struct S {
        #[builder(setter(each = "item"), try_setter)]
        pub a: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s49 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(skip))]
    pub struct S {
        #[builder(setter(each = "item"))]
        pub a: Vec<N>,
        pub b: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: Default::default(),
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s50 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(each(name = "item", into)))]
        pub a: Coll,
        #[builder(setter(each = "other"))]
        pub b: Coll,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Coll>,
        pub b: Option<Coll>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.item(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                2 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); b = b.other(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.b, Default::default); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s51 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(pattern = "mutable", setter(each = "item"))]
        pub a: Coll,
        #[builder(pattern = "mutable", setter(each(name = "oitem", into), strip_option))]
        pub b: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Coll>,
        pub b: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                2 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let _: &mut SBuilder = b.b(x.clone()); m.b = Some(Some(x)); }
                3 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.oitem(x.clone()); { let c: &mut Coll = (m.b.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s52 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(pattern = "mutable", setter(each = "item"))]
        pub a: Vec<N>,
        #[builder(pattern = "mutable", setter(each(name = "oitem", into)))]
        pub b: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.oitem(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.b, Default::default); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s53 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(pattern = "immutable", setter(each = "item"))]
        pub a: Coll,
        #[builder(pattern = "immutable", setter(each(name = "oitem", into), strip_option))]
        pub b: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Coll>,
        pub b: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Coll = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                2 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(Some(x)); }
                3 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.oitem(x.clone()); slots(&b, &m); b = nb; { let c: &mut Coll = (m.b.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s54 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(pattern = "immutable", setter(each = "item"))]
        pub a: Vec<N>,
        #[builder(pattern = "immutable", setter(each(name = "oitem", into)))]
        pub b: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.oitem(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.b, Default::default); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s55 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(each = "item"))]
        pub a: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s56 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(each = "item", into))]
        pub a: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s57 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(each(name = "item")))]
        pub a: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s58 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(each(name = "item"), into))]
        pub a: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s59 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(each(name = "item", into)))]
        pub a: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s60 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(each(name = "item", into), into))]
        pub a: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s61 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(each = "item"))]
        pub a: Coll,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Coll>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Coll = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s62 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(each(name = "item")))]
        pub a: Coll,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Coll>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Coll = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s63 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(each(name = "item", into)))]
        pub a: Coll,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Coll>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Coll = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s64 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(each = "item", strip_option))]
        pub a: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s65 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(each = "item", strip_option, into))]
        pub a: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s66 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(each(name = "item"), strip_option))]
        pub a: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s67 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(each(name = "item"), strip_option, into))]
        pub a: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s68 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(each(name = "item", into), strip_option))]
        pub a: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                1 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s69 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(each(name = "item", into), strip_option, into))]
        pub a: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s70 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(each = "item", strip_option))]
        pub a: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                1 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Coll = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s71 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(each(name = "item"), strip_option))]
        pub a: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                1 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Coll = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s72 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(each(name = "item", into), strip_option))]
        pub a: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                1 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Coll = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s73 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(each = "item", name = "all_items"))]
        pub a: Vec<N>,
        #[builder(setter(each(name = "push_b", into), prefix = "set"))]
        pub b: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.all_items(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.set_b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.push_b(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.b, Default::default); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s74 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(each = "item"), default = "vec![N(8), N(9)]")]
        pub a: Vec<N>,
        #[builder(setter(each(name = "add", into)), default = "Coll { items: [5; 6], len: 2, origin: 9 }")]
        pub b: Coll,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Coll>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => vec![N(8), N(9)] },
            b: match m.b.clone() { Some(v) => v, None => Coll { items: [5; 6], len: 2, origin: 9 } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                2 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.add(x.clone()); slots(&b, &m); b = nb; { let c: &mut Coll = Option::get_or_insert_with(&mut m.b, Default::default); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s75 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(strip_option), default = "S { a: vec![N(1)], b: Some(vec![N(2)]) }")]
    pub struct S {
        #[builder(setter(each = "item"))]
        pub a: Vec<N>,
        #[builder(setter(each = "opt"))]
        pub b: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: vec![N(1)], b: Some(vec![N(2)]) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(Some(x)); }
                3 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.opt(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = (m.b.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s76 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(into))]
    pub struct S {
        #[builder(setter(each = "item"), try_setter)]
        pub a: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s77 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(skip))]
    pub struct S {
        #[builder(setter(each = "item"))]
        pub a: Vec<N>,
        pub b: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: Default::default(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s78 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(each(name = "item", into)))]
        pub a: Coll,
        #[builder(setter(each = "other"))]
        pub b: Coll,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Coll>,
        pub b: Option<Coll>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Coll = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                2 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let nb: SBuilder = b.other(x.clone()); slots(&b, &m); b = nb; { let c: &mut Coll = Option::get_or_insert_with(&mut m.b, Default::default); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s79 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(pattern = "mutable", setter(each = "item"))]
        pub a: Coll,
        #[builder(pattern = "mutable", setter(each(name = "oitem", into), strip_option))]
        pub b: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Coll>,
        pub b: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                2 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let _: &mut SBuilder = b.b(x.clone()); m.b = Some(Some(x)); }
                3 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.oitem(x.clone()); { let c: &mut Coll = (m.b.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s80 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(pattern = "mutable", setter(each = "item"))]
        pub a: Vec<N>,
        #[builder(pattern = "mutable", setter(each(name = "oitem", into)))]
        pub b: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.oitem(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.b, Default::default); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s81 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(pattern = "owned", setter(each = "item"))]
        pub a: Coll,
        #[builder(pattern = "owned", setter(each(name = "oitem", into), strip_option))]
        pub b: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Coll>,
        pub b: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); b = b.item(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                2 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.b(x.clone()); m.b = Some(Some(x)); }
                3 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.oitem(x.clone()); { let c: &mut Coll = (m.b.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub const COUNT: usize = 82;
pub fn grid(extra: usize) {
    reset();
    match choice("cfg", COUNT) {
        0 => s0::run(3 + extra, false),
        1 => s1::run(3 + extra, false),
        2 => s2::run(3 + extra, false),
        3 => s3::run(3 + extra, false),
        4 => s4::run(3 + extra, false),
        5 => s5::run(3 + extra, false),
        6 => s6::run(3 + extra, false),
        7 => s7::run(3 + extra, false),
        8 => s8::run(3 + extra, false),
        9 => s9::run(3 + extra, false),
        10 => s10::run(3 + extra, false),
        11 => s11::run(3 + extra, false),
        12 => s12::run(3 + extra, false),
        13 => s13::run(3 + extra, false),
        14 => s14::run(3 + extra, false),
        15 => s15::run(3 + extra, false),
        16 => s16::run(3 + extra, false),
        17 => s17::run(3 + extra, false),
        18 => s18::run(3 + extra, false),
        19 => s19::run(3 + extra, false),
        20 => s20::run(3 + extra, false),
        21 => s21::run(3 + extra, false),
        22 => s22::run(3 + extra, false),
        23 => s23::run(4 + extra, false),
        24 => s24::run(3 + extra, false),
        25 => s25::run(3 + extra, false),
        26 => s26::run(3 + extra, false),
        27 => s27::run(3 + extra, false),
        28 => s28::run(3 + extra, false),
        29 => s29::run(3 + extra, false),
        30 => s30::run(3 + extra, false),
        31 => s31::run(3 + extra, false),
        32 => s32::run(3 + extra, false),
        33 => s33::run(3 + extra, false),
        34 => s34::run(3 + extra, false),
        35 => s35::run(3 + extra, false),
        36 => s36::run(3 + extra, false),
        37 => s37::run(3 + extra, false),
        38 => s38::run(3 + extra, false),
        39 => s39::run(3 + extra, false),
        40 => s40::run(3 + extra, false),
        41 => s41::run(3 + extra, false),
        42 => s42::run(3 + extra, false),
        43 => s43::run(3 + extra, false),
        44 => s44::run(3 + extra, false),
        45 => s45::run(3 + extra, false),
        46 => s46::run(3 + extra, false),
        47 => s47::run(3 + extra, false),
        48 => s48::run(3 + extra, false),
        49 => s49::run(3 + extra, false),
        50 => s50::run(4 + extra, false),
        51 => s51::run(3 + extra, false),
        52 => s52::run(3 + extra, false),
        53 => s53::run(3 + extra, false),
        54 => s54::run(3 + extra, false),
        55 => s55::run(3 + extra, false),
        56 => s56::run(3 + extra, false),
        57 => s57::run(3 + extra, false),
        58 => s58::run(3 + extra, false),
        59 => s59::run(3 + extra, false),
        60 => s60::run(3 + extra, false),
        61 => s61::run(3 + extra, false),
        62 => s62::run(3 + extra, false),
        63 => s63::run(3 + extra, false),
        64 => s64::run(3 + extra, false),
        65 => s65::run(3 + extra, false),
        66 => s66::run(3 + extra, false),
        67 => s67::run(3 + extra, false),
        68 => s68::run(3 + extra, false),
        69 => s69::run(3 + extra, false),
        70 => s70::run(3 + extra, false),
        71 => s71::run(3 + extra, false),
        72 => s72::run(3 + extra, false),
        73 => s73::run(3 + extra, false),
        74 => s74::run(3 + extra, false),
        75 => s75::run(3 + extra, false),
        76 => s76::run(3 + extra, false),
        77 => s77::run(3 + extra, false),
        78 => s78::run(4 + extra, false),
        79 => s79::run(3 + extra, false),
        80 => s80::run(3 + extra, false),
        _ => s81::run(3 + extra, false),
    }
}
pub fn step(k: usize) {
    reset();
    match choice("cfg", COUNT) {
        0 => s0::run(k, true),
        1 => s1::run(k, true),
        2 => s2::run(k, true),
        3 => s3::run(k, true),
        4 => s4::run(k, true),
        5 => s5::run(k, true),
        6 => s6::run(k, true),
        7 => s7::run(k, true),
        8 => s8::run(k, true),
        9 => s9::run(k, true),
        10 => s10::run(k, true),
        11 => s11::run(k, true),
        12 => s12::run(k, true),
        13 => s13::run(k, true),
        14 => s14::run(k, true),
        15 => s15::run(k, true),
        16 => s16::run(k, true),
        17 => s17::run(k, true),
        18 => s18::run(k, true),
        19 => s19::run(k, true),
        20 => s20::run(k, true),
        21 => s21::run(k, true),
        22 => s22::run(k, true),
        23 => s23::run(k, true),
        24 => s24::run(k, true),
        25 => s25::run(k, true),
        26 => s26::run(k, true),
        27 => s27::run(k, true),
        28 => s28::run(k, true),
        29 => s29::run(k, true),
        30 => s30::run(k, true),
        31 => s31::run(k, true),
        32 => s32::run(k, true),
        33 => s33::run(k, true),
        34 => s34::run(k, true),
        35 => s35::run(k, true),
        36 => s36::run(k, true),
        37 => s37::run(k, true),
        38 => s38::run(k, true),
        39 => s39::run(k, true),
        40 => s40::run(k, true),
        41 => s41::run(k, true),
        42 => s42::run(k, true),
        43 => s43::run(k, true),
        44 => s44::run(k, true),
        45 => s45::run(k, true),
        46 => s46::run(k, true),
        47 => s47::run(k, true),
        48 => s48::run(k, true),
        49 => s49::run(k, true),
        50 => s50::run(k, true),
        51 => s51::run(k, true),
        52 => s52::run(k, true),
        53 => s53::run(k, true),
        54 => s54::run(k, true),
        55 => s55::run(k, true),
        56 => s56::run(k, true),
        57 => s57::run(k, true),
        58 => s58::run(k, true),
        59 => s59::run(k, true),
        60 => s60::run(k, true),
        61 => s61::run(k, true),
        62 => s62::run(k, true),
        63 => s63::run(k, true),
        64 => s64::run(k, true),
        65 => s65::run(k, true),
        66 => s66::run(k, true),
        67 => s67::run(k, true),
        68 => s68::run(k, true),
        69 => s69::run(k, true),
        70 => s70::run(k, true),
        71 => s71::run(k, true),
        72 => s72::run(k, true),
        73 => s73::run(k, true),
        74 => s74::run(k, true),
        75 => s75::run(k, true),
        76 => s76::run(k, true),
        77 => s77::run(k, true),
        78 => s78::run(k, true),
        79 => s79::run(k, true),
        80 => s80::run(k, true),
        _ => s81::run(k, true),
    }
}
