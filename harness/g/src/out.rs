//! The parts of an expansion, found structurally.
use crate::tok::{T::*, *};
use symrt::fail;

#[derive(Clone, Debug, PartialEq)]
pub struct FnItem {
    pub attrs: Vec<Vec<T>>,
    pub vis: Vec<T>,
    pub name: String,
    pub generics: Vec<T>,
    pub inputs: Vec<Vec<T>>,
    pub ret: Vec<T>,
    pub where_: Vec<T>,
    pub body: Vec<T>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct FieldItem {
    pub attrs: Vec<Vec<T>>,
    pub vis: Vec<T>,
    pub name: String,
    pub ty: Vec<T>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Struct { fields: Vec<FieldItem> },
    Enum { body: Vec<T> },
    Impl { trait_: Option<Vec<T>>, fns: Vec<FnItem> },
    /// A macro call, e.g. compile_error!
    Call { path: Vec<T>, arg: Vec<T> },
}
#[derive(Clone, Debug, PartialEq)]
pub struct Item {
    pub attrs: Vec<Vec<T>>,
    pub vis: Vec<T>,
    /// Name of a struct or enum; for impls the self type.
    pub name: Vec<T>,
    pub generics: Vec<T>,
    pub where_: Vec<T>,
    pub kind: Kind,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Out {
    pub items: Vec<Item>,
}

struct Cur<'a> {
    t: &'a [T],
    i: usize,
}
impl<'a> Cur<'a> {
    fn peek(&self) -> Option<&'a T> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> &'a T {
        match self.t.get(self.i) {
            Some(t) => {
                self.i += 1;
                t
            }
            None => fail("expansion ends unexpectedly"),
        }
    }
    fn attrs(&mut self) -> Vec<Vec<T>> {
        let mut v = Vec::new();
        while let Some(P('#')) = self.peek() {
            self.i += 1;
            match self.next() {
                G('[', inner) => v.push(inner.clone()),
                _ => fail("malformed attribute in the expansion"),
            }
        }
        v
    }
    fn vis(&mut self) -> Vec<T> {
        let mut v = Vec::new();
        if let Some(t) = self.peek() {
            if t.is("pub") {
                v.push(t.clone());
                self.i += 1;
                if let Some(G('(', _)) = self.peek() {
                    v.push(self.next().clone());
                }
            }
        }
        v
    }
    /// `<...>` including the brackets, if present.
    fn angles(&mut self) -> Vec<T> {
        let mut v = Vec::new();
        if !matches!(self.peek(), Some(P('<'))) {
            return v;
        }
        let mut d = 0i32;
        loop {
            let t = self.next();
            if t.p('<') {
                d += 1;
            } else if t.p('>') && !v.last().map_or(false, |l: &T| l.p('-') || l.p('=')) {
                d -= 1;
            }
            v.push(t.clone());
            if d == 0 {
                return v;
            }
        }
    }
    fn until(&mut self, stop: &dyn Fn(&T) -> bool) -> Vec<T> {
        let mut v = Vec::new();
        while let Some(t) = self.peek() {
            if stop(t) {
                break;
            }
            v.push(t.clone());
            self.i += 1;
        }
        v
    }
    fn where_(&mut self) -> Vec<T> {
        if self.peek().map_or(false, |t| t.is("where")) {
            self.i += 1;
            let mut v = self.until(&|t| matches!(t, G('{', _)) || t.p(';'));
            if v.last().map_or(false, |t| t.p(',')) {
                v.pop();
            }
            return v;
        }
        Vec::new()
    }
    fn brace(&mut self) -> &'a [T] {
        match self.next() {
            G('{', b) => b,
            _ => fail("expected a braced body in the expansion"),
        }
    }
}
fn fns(body: &[T]) -> Vec<FnItem> {
    let mut c = Cur { t: body, i: 0 };
    let mut v = Vec::new();
    while c.peek().is_some() {
        let attrs = c.attrs();
        let vis = c.vis();
        while c.peek().map_or(false, |t| t.is("const") || t.is("unsafe")) {
            c.i += 1;
        }
        if !c.next().is("fn") {
            fail("unexpected item in an impl of the expansion");
        }
        let name = match c.next() {
            I(n) => n.clone(),
            _ => fail("fn without a name"),
        };
        let generics = c.angles();
        let inputs = match c.next() {
            G('(', a) => commas(a),
            _ => fail("fn without arguments"),
        };
        let mut ret = Vec::new();
        if matches!(c.peek(), Some(P('-'))) {
            c.i += 2;
            ret = c.until(&|t| matches!(t, G('{', _)) || t.is("where"));
        }
        let where_ = c.where_();
        let body = c.brace().to_vec();
        v.push(FnItem { attrs, vis, name, generics, inputs, ret, where_, body });
    }
    v
}
fn fields(body: &[T]) -> Vec<FieldItem> {
    let mut v = Vec::new();
    for part in commas(body) {
        let mut c = Cur { t: &part, i: 0 };
        let attrs = c.attrs();
        let vis = c.vis();
        let name = match c.next() {
            I(n) => n.clone(),
            _ => fail("builder field without a name"),
        };
        if !c.next().p(':') {
            fail("malformed builder field");
        }
        v.push(FieldItem { attrs, vis, name, ty: part[c.i..].to_vec() });
    }
    v
}
pub fn parse(ts: &[T]) -> Out {
    let mut c = Cur { t: ts, i: 0 };
    let mut items = Vec::new();
    while c.peek().is_some() {
        let attrs = c.attrs();
        let vis = c.vis();
        let start = c.i;
        let t = c.next();
        if t.is("struct") {
            let name = vec![c.next().clone()];
            let generics = c.angles();
            let where_ = c.where_();
            let fields = fields(c.brace());
            items.push(Item { attrs, vis, name, generics, where_, kind: Kind::Struct { fields } });
        } else if t.is("enum") {
            let name = vec![c.next().clone()];
            let generics = c.angles();
            let where_ = c.where_();
            let body = c.brace().to_vec();
            items.push(Item { attrs, vis, name, generics, where_, kind: Kind::Enum { body } });
        } else if t.is("impl") {
            let generics = c.angles();
            let head = c.until(&|t| matches!(t, G('{', _)) || t.is("where"));
            let where_ = c.where_();
            let fns = fns(c.brace());
            let mut d = 0;
            let mut at = None;
            for (i, t) in head.iter().enumerate() {
                if t.p('<') {
                    d += 1;
                } else if t.p('>') {
                    d -= 1;
                } else if d == 0 && t.is("for") {
                    at = Some(i);
                }
            }
            let (trait_, name) = match at {
                Some(i) => (Some(head[..i].to_vec()), head[i + 1..].to_vec()),
                None => (None, head),
            };
            items.push(Item { attrs, vis, name, generics, where_, kind: Kind::Impl { trait_, fns } });
        } else {
            c.i = start;
            let path = c.until(&|t| t.p('!'));
            c.i += 1;
            let arg = match c.next() {
                G(_, a) => a.clone(),
                _ => fail("malformed macro call in the expansion"),
            };
            if matches!(c.peek(), Some(P(';'))) {
                c.i += 1;
            }
            items.push(Item { attrs, vis, name: vec![], generics: vec![], where_: vec![], kind: Kind::Call { path, arg } });
        }
    }
    Out { items }
}
pub fn attr_is(a: &[T], name: &str) -> bool {
    a.first().map_or(false, |t| t.is(name))
}
impl Out {
    pub fn errors(&self) -> usize {
        self.items.iter().filter(|i| matches!(&i.kind, Kind::Call { path, .. } if path.last().map_or(false, |t| t.is("compile_error")))).count()
    }
    pub fn structs(&self) -> Vec<&Item> {
        self.items.iter().filter(|i| matches!(i.kind, Kind::Struct { .. })).collect()
    }
    pub fn enums(&self) -> Vec<&Item> {
        self.items.iter().filter(|i| matches!(i.kind, Kind::Enum { .. })).collect()
    }
    /// The builder struct (the only struct).
    pub fn builder(&self) -> &Item {
        let s = self.structs();
        if s.len() != 1 {
            fail("the expansion must contain exactly one struct");
        }
        s[0]
    }
    pub fn fields(&self) -> &[FieldItem] {
        match &self.builder().kind {
            Kind::Struct { fields } => fields,
            _ => fail("not a struct"),
        }
    }
    pub fn field(&self, name: &str) -> &FieldItem {
        match self.fields().iter().find(|f| f.name == name) {
            Some(f) => f,
            None => fail("the builder struct lacks a field"),
        }
    }
    /// The inherent impl of the builder (the only one).
    pub fn inherent(&self) -> &Item {
        let v: Vec<&Item> = self.items.iter().filter(|i| matches!(i.kind, Kind::Impl { trait_: None, .. })).collect();
        if v.len() != 1 {
            fail("the expansion must contain exactly one inherent impl");
        }
        v[0]
    }
    pub fn fns(&self) -> &[FnItem] {
        match &self.inherent().kind {
            Kind::Impl { fns, .. } => fns,
            _ => fail("not an impl"),
        }
    }
    pub fn get_fn(&self, name: &str) -> Option<&FnItem> {
        self.fns().iter().find(|f| f.name == name)
    }
    pub fn need_fn(&self, name: &str) -> &FnItem {
        match self.get_fn(name) {
            Some(f) => f,
            None => fail("an expected method was not generated"),
        }
    }
    /// Trait impls whose trait path mentions the given ident, as its last path segment.
    pub fn impls_of(&self, tr: &str) -> Vec<&Item> {
        self.items
            .iter()
            .filter(|i| match &i.kind {
                Kind::Impl { trait_: Some(t), .. } => last_segment(t) == Some(tr),
                _ => false,
            })
            .collect()
    }
    /// `field: expr` pairs of the struct literal for `target` in fn `build`.
    pub fn inits(&self, build: &str, target: &str) -> Vec<(String, Vec<T>)> {
        let f = self.need_fn(build);
        match find_literal(&f.body, target) {
            Some(b) => commas(b)
                .into_iter()
                .map(|p| {
                    let n = match &p[0] {
                        I(n) => n.clone(),
                        _ => fail("malformed initializer"),
                    };
                    (n, p[2..].to_vec())
                })
                .collect(),
            None => fail("the build method does not construct the target"),
        }
    }
}
/// Name of the last path segment before any generic arguments.
pub fn last_segment(t: &[T]) -> Option<&str> {
    let mut last = None;
    for x in t {
        match x {
            I(s) => last = Some(s.as_str()),
            P('<') => break,
            _ => {}
        }
    }
    last
}
fn find_literal<'a>(ts: &'a [T], target: &str) -> Option<&'a [T]> {
    for i in 0..ts.len() {
        if let G(d, inner) = &ts[i] {
            if *d == '{' && i > 0 && ts[i - 1].is(target) {
                return Some(inner);
            }
            if let Some(r) = find_literal(inner, target) {
                return Some(r);
            }
        }
    }
    None
}
/// Tokens written in Rust syntax.
#[macro_export]
macro_rules! toks {
    ($($t:tt)*) => { $crate::tok::flat(::quote::quote!($($t)*)) };
}
