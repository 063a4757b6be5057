//! LLVM textual IR: types, module index, lazy function decoding.
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64};
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Arr(u64, Arc<Ty>),
    Vec(u32, Arc<Ty>),
    Struct(Arc<Vec<Ty>>, bool),
    Label,
    Meta,
    Func(Arc<Ty>),
}

fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Func(_) => 0,
            Ty::Int(w) => {
                let b = ((*w + 7) / 8) as u64;
                align_up(b, self.align())
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => ((*n as u64 * t.bits() as u64 + 7) / 8).next_power_of_two(),
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                let mut al = 1;
                for f in fs.iter() {
                    if !packed {
                        o = align_up(o, f.align());
                        al = al.max(f.align());
                    }
                    o += f.size();
                }
                if *packed {
                    o
                } else {
                    align_up(o, al)
                }
            }
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w + 7) / 8) as u64,
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().max(1),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            Ty::Vec(n, t) => n * t.bits(),
            _ => (self.size() * 8) as u32,
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) => (i as u64 * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i as u64 * t.size(), (**t).clone()),
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        o = align_up(o, f.align());
                    }
                    if k == i {
                        return (o, f.clone());
                    }
                    o += f.size();
                }
                panic!("field index")
            }
            _ => panic!("field of scalar"),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            Ty::Struct(fs, _) => fs.len(),
            _ => 0,
        }
    }
}

/// Register value.
#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    S(u32),
    W(Box<u128>),
    A(Arc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    C(u64),
    K(Arc<Val>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    Zext,
    Sext,
    Bitcast,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub pc: u32,
    pub moves: Box<[(u32, Op)]>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ext(crate::ext::X, Arc<String>),
    Ind(Op),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u32, n: u32, d: u32, a: Op, b: Op },
    Cmp { p: Pred, w: u32, n: u32, d: u32, a: Op, b: Op },
    FCmp { p: u8, dbl: bool, d: u32, a: Op, b: Op },
    FNeg { dbl: bool, d: u32, a: Op },
    Cast { op: CastOp, from: Ty, to: Ty, d: u32, a: Op },
    Load { d: u32, ty: Ty, p: Op },
    Store { ty: Ty, v: Op, p: Op },
    Gep { d: u32, base: Op, off: i64, terms: Box<[(Op, u32, i64)]> },
    Alloca { d: u32, size: u64, align: u64, n: Op },
    Select { d: u32, c: Op, a: Op, b: Op, vec: bool, w: u32 },
    Br(Edge),
    CondBr { c: Op, t: Edge, f: Edge },
    Switch { v: Op, w: u32, def: Edge, cases: Box<[(u64, Edge)]>, map: Option<Arc<HashMap<u64, u32>>> },
    Ret(Option<Op>),
    Unreachable,
    Call { d: Option<u32>, rty: Ty, callee: Callee, args: Box<[(Op, Ty)]>, cont: Option<Edge> },
    Extract { d: u32, a: Op, idx: Box<[u32]> },
    Insert { d: u32, a: Op, v: Op, idx: Box<[u32]>, ty: Ty },
    InsElem { d: u32, a: Op, v: Op, i: Op },
    ExtElem { d: u32, a: Op, i: Op },
    Shuffle { d: u32, a: Op, b: Op, mask: Box<[i32]> },
    Rmw { d: u32, op: Arc<String>, w: u32, p: Op, v: Op },
    CmpXchg { d: u32, w: u32, p: Op, c: Op, n: Op },
    Copy { d: u32, a: Op },
    Nop,
    Bad(Arc<String>),
}

pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub code: Vec<Inst>,
}

pub struct FuncSlot {
    pub name: String,
    pub range: (usize, usize),
    pub cell: OnceLock<Func>,
    pub executed: AtomicBool,
    pub is_panic: bool,
    pub n_inst: AtomicU64,
}

#[derive(Clone, Copy, Debug)]
pub enum GRef {
    Var(u64),
    Func(u32),
    Ext(u32),
}

pub const FN_BASE: u64 = 0x10_0000;
pub const EXT_BASE: u64 = 0x80_0000;
pub const GLOB_BASE: u64 = 0x100_0000;

pub struct Module {
    pub text: String,
    pub types: HashMap<String, Ty>,
    pub funcs: Vec<FuncSlot>,
    pub exts: Vec<Arc<String>>,
    pub names: HashMap<String, GRef>,
    pub image: Vec<u8>,
    pub glob_end: u64,
    pub const_ranges: Vec<(u64, u64)>,
}

pub struct P<'a> {
    pub s: &'a [u8],
    pub i: usize,
}

impl<'a> P<'a> {
    pub fn new(s: &'a str) -> Self {
        P { s: s.as_bytes(), i: 0 }
    }
    pub fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\n' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            let e = (self.i + 60).min(self.s.len());
            let b = self.i.saturating_sub(120);
            panic!(
                "expected '{}' at '{}' <<HERE>> '{}'",
                c as char,
                String::from_utf8_lossy(&self.s[b..self.i]),
                String::from_utf8_lossy(&self.s[self.i..e])
            );
        }
    }
    pub fn word(&mut self) -> &'a str {
        self.ws();
        let b = self.i;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'+' || c == b'$' {
                self.i += 1;
            } else {
                break;
            }
        }
        std::str::from_utf8(&self.s[b..self.i]).unwrap()
    }
    pub fn peek_word(&mut self) -> &'a str {
        let sv = self.i;
        let w = self.word();
        self.i = sv;
        w
    }
    pub fn eat_word(&mut self, w: &str) -> bool {
        let sv = self.i;
        if self.word() == w {
            true
        } else {
            self.i = sv;
            false
        }
    }
    /// name after a sigil (% or @), possibly quoted
    pub fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let q = self.quoted();
            return String::from_utf8_lossy(&q).into_owned();
        }
        let b = self.i;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' {
                self.i += 1;
            } else {
                break;
            }
        }
        String::from_utf8_lossy(&self.s[b..self.i]).into_owned()
    }
    pub fn quoted(&mut self) -> Vec<u8> {
        self.expect(b'"');
        let mut out = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    out.push(b'\\');
                    self.i += 2;
                    continue;
                }
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                out.push(u8::from_str_radix(h, 16).unwrap());
                self.i += 3;
            } else {
                out.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        out
    }
    /// skip a balanced parenthesised group if present
    pub fn skip_parens(&mut self) {
        if self.peek() == b'(' {
            let mut d = 0;
            loop {
                match self.s[self.i] {
                    b'(' => d += 1,
                    b')' => {
                        d -= 1;
                        if d == 0 {
                            self.i += 1;
                            return;
                        }
                    }
                    b'"' => {
                        self.quoted();
                        continue;
                    }
                    _ => {}
                }
                self.i += 1;
            }
        }
    }
    pub fn ty(&mut self, m: &HashMap<String, Ty>) -> Ty {
        let mut t = match self.peek() {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                while !self.eat(b'}') {
                    v.push(self.ty(m));
                    self.eat(b',');
                }
                Ty::Struct(Arc::new(v), false)
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let mut v = vec![];
                    while !self.eat(b'}') {
                        v.push(self.ty(m));
                        self.eat(b',');
                    }
                    self.expect(b'>');
                    Ty::Struct(Arc::new(v), true)
                } else {
                    let n: u32 = self.word().parse().unwrap();
                    assert!(self.eat_word("x"));
                    let t = self.ty(m);
                    self.expect(b'>');
                    Ty::Vec(n, Arc::new(t))
                }
            }
            b'[' => {
                self.i += 1;
                let n: u64 = self.word().parse().unwrap();
                assert!(self.eat_word("x"));
                let t = self.ty(m);
                self.expect(b']');
                Ty::Arr(n, Arc::new(t))
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                m.get(&n).cloned().unwrap_or_else(|| panic!("unknown type {n}"))
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.peek_word() == "addrspace" {
                            self.word();
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::Float,
                    "double" => Ty::Double,
                    "label" => Ty::Label,
                    "metadata" => Ty::Meta,
                    _ if w.starts_with('i') && w.len() > 1 => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {w}"))),
                    _ => panic!("type '{w}' at {}", String::from_utf8_lossy(&self.s[self.i.saturating_sub(80)..(self.i + 80).min(self.s.len())])),
                }
            }
        };
        // function type
        if self.peek() == b'(' {
            // only when it looks like a function type (used in calls with varargs)
            let sv = self.i;
            self.skip_parens();
            let nxt = self.peek();
            if nxt == b'@' || nxt == b'%' {
                t = Ty::Func(Arc::new(t));
            } else {
                self.i = sv;
            }
        }
        t
    }
}

pub fn is_panic_name(n: &str) -> bool {
    n.contains("4core9panicking") || n.contains("rust_begin_unwind") || n.contains("rust_panic") || n.contains("handle_alloc_error")
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).expect("read ll");
        let mut m = Module {
            text: String::new(),
            types: HashMap::new(),
            funcs: vec![],
            exts: vec![],
            names: HashMap::new(),
            image: vec![],
            glob_end: 0,
            const_ranges: vec![],
        };
        let mut globals: Vec<&str> = vec![];
        let mut aliases: Vec<&str> = vec![];
        let mut typedefs: Vec<&str> = vec![];
        let mut pos = 0usize;
        let bytes = text.as_bytes();
        let n = bytes.len();
        while pos < n {
            let eol = memchr(bytes, pos, b'\n');
            let line = &text[pos..eol];
            let c = if line.is_empty() { 0 } else { line.as_bytes()[0] };
            match c {
                b'%' => typedefs.push(line),
                b'@' => {
                    let mut p = P::new(line);
                    p.i = 1;
                    p.name();
                    p.expect(b'=');
                    let rest = &line[p.i..];
                    if rest.contains(" alias ") && !rest.contains(" constant ") && !rest.contains(" global ") {
                        aliases.push(line)
                    } else {
                        globals.push(line)
                    }
                }
                b'd' if line.starts_with("define") => {
                    // find end
                    let mut q = eol + 1;
                    loop {
                        let e2 = memchr(bytes, q, b'\n');
                        if &text[q..e2] == "}" {
                            q = e2;
                            break;
                        }
                        q = e2 + 1;
                        if q >= n {
                            panic!("unterminated function");
                        }
                    }
                    let at = line.find('@').unwrap();
                    let mut p = P::new(line);
                    p.i = at + 1;
                    let name = p.name();
                    let id = m.funcs.len() as u32;
                    m.names.insert(name.clone(), GRef::Func(id));
                    let is_panic = is_panic_name(&name);
                    m.funcs.push(FuncSlot {
                        name,
                        range: (pos, q),
                        cell: OnceLock::new(),
                        executed: AtomicBool::new(false),
                        is_panic,
                        n_inst: AtomicU64::new(0),
                    });
                    pos = q + 1;
                    continue;
                }
                b'd' if line.starts_with("declare") => {
                    let at = line.find('@').unwrap();
                    let mut p = P::new(line);
                    p.i = at + 1;
                    let name = p.name();
                    let id = m.exts.len() as u32;
                    m.names.insert(name.clone(), GRef::Ext(id));
                    m.exts.push(Arc::new(name));
                }
                _ => {}
            }
            pos = eol + 1;
        }
        // types: may refer to each other; iterate until resolved
        let mut pending: Vec<(String, &str)> = typedefs
            .iter()
            .map(|l| {
                let mut p = P::new(l);
                p.i = 1;
                let nm = p.name();
                p.expect(b'=');
                assert!(p.eat_word("type"));
                (nm, &l[p.i..])
            })
            .collect();
        while !pending.is_empty() {
            let before = pending.len();
            pending.retain(|(nm, body)| {
                if body.trim() == "opaque" {
                    m.types.insert(nm.clone(), Ty::Void);
                    return false;
                }
                let types = &m.types;
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| P::new(body).ty(types)));
                match r {
                    Ok(t) => {
                        m.types.insert(nm.clone(), t);
                        false
                    }
                    Err(_) => true,
                }
            });
            if pending.len() == before {
                panic!("unresolvable types");
            }
        }
        // globals pass 1
        struct G<'a> {
            addr: u64,
            ty: Ty,
            init: Option<&'a str>,
        }
        let mut gs = vec![];
        let mut addr = GLOB_BASE;
        for l in &globals {
            let mut p = P::new(l);
            p.i = 1;
            let nm = p.name();
            p.expect(b'=');
            let mut external = false;
            let is_const;
            loop {
                let w = p.word();
                match w {
                    "constant" => {
                        is_const = true;
                        break;
                    }
                    "global" => {
                        is_const = false;
                        break;
                    }
                    "external" | "extern_weak" => external = true,
                    "thread_local" | "addrspace" => p.skip_parens(),
                    "" => panic!("global syntax: {}", &l[..l.len().min(200)]),
                    _ => {}
                }
            }
            let ty = p.ty(&m.types);
            let sz = ty.size().max(1);
            let mut al = ty.align().max(16);
            if let Some(k) = l.rfind(", align ") {
                let t: String = l[k + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(a) = t.parse::<u64>() {
                    al = al.max(a);
                }
            }
            addr = align_up(addr, al);
            m.names.insert(nm, GRef::Var(addr));
            if is_const {
                m.const_ranges.push((addr, addr + sz));
            }
            gs.push(G { addr, ty, init: if external { None } else { Some(&l[p.i..]) } });
            addr += sz + 16;
        }
        for l in &aliases {
            let mut p = P::new(l);
            p.i = 1;
            let nm = p.name();
            if let Some(k) = l.rfind('@') {
                let mut p2 = P::new(l);
                p2.i = k + 1;
                let target = p2.name();
                if let Some(r) = m.names.get(&target).copied() {
                    m.names.insert(nm, r);
                }
            }
        }
        m.glob_end = align_up(addr, 4096);
        m.image = vec![0u8; (m.glob_end - GLOB_BASE) as usize];
        let mut image = std::mem::take(&mut m.image);
        for g in &gs {
            if let Some(init) = g.init {
                let mut p = P::new(init);
                m.init_const(&mut p, &g.ty, &mut image, g.addr - GLOB_BASE);
            }
        }
        m.image = image;
        drop(globals);
        drop(aliases);
        drop(typedefs);
        drop(gs);
        m.text = text;
        m
    }

    fn init_const(&self, p: &mut P, ty: &Ty, img: &mut [u8], off: u64) {
        let o = off as usize;
        match p.peek() {
            b'c' if p.s.get(p.i + 1) == Some(&b'"') => {
                p.i += 1;
                let b = p.quoted();
                img[o..o + b.len()].copy_from_slice(&b);
                return;
            }
            b'[' | b'{' | b'<' => {
                let open = p.peek();
                p.i += 1;
                let mut close = match open {
                    b'[' => b']',
                    b'{' => b'}',
                    _ => b'>',
                };
                let mut packed = false;
                if open == b'<' && p.peek() == b'{' {
                    p.i += 1;
                    packed = true;
                    close = b'}';
                }
                let mut k = 0;
                while !p.eat(close) {
                    let ety = p.ty(&self.types);
                    let (fo, _) = ty.field(k);
                    self.init_const(p, &ety, img, off + fo);
                    k += 1;
                    p.eat(b',');
                }
                if packed {
                    p.expect(b'>');
                }
                return;
            }
            _ => {}
        }
        let w = p.peek_word();
        if w == "zeroinitializer" || w == "undef" || w == "poison" {
            p.word();
            return;
        }
        let v = self.scalar_const(p, ty);
        let sz = ty.store_size() as usize;
        img[o..o + sz].copy_from_slice(&v.to_le_bytes()[..sz]);
    }

    /// scalar constant expression
    pub fn scalar_const(&self, p: &mut P, ty: &Ty) -> u128 {
        let c = p.peek();
        if c == b'@' {
            p.i += 1;
            let n = p.name();
            return self.addr_of(&n) as u128;
        }
        let w = p.word();
        match w {
            "null" | "zeroinitializer" | "undef" | "poison" | "none" | "false" => 0,
            "true" => 1,
            "getelementptr" => {
                loop {
                    let k = p.peek_word();
                    if k == "inbounds" || k == "nuw" || k == "nusw" {
                        p.word();
                    } else if k == "inrange" {
                        p.word();
                        p.skip_parens();
                    } else {
                        break;
                    }
                }
                p.expect(b'(');
                let mut t = p.ty(&self.types);
                p.expect(b',');
                let bt = p.ty(&self.types);
                let base = self.scalar_const(p, &bt) as u64;
                let mut off = 0i64;
                let mut first = true;
                while p.eat(b',') {
                    let it = p.ty(&self.types);
                    let iv = sext(self.scalar_const(p, &it), it.bits()) as i64;
                    if first {
                        off += iv * t.size() as i64;
                        first = false;
                    } else {
                        let (fo, ft) = match &t {
                            Ty::Arr(_, e) => (iv * e.size() as i64, (**e).clone()),
                            _ => {
                                let (a, b) = t.field(iv as usize);
                                (a as i64, b)
                            }
                        };
                        off += fo;
                        t = ft;
                    }
                }
                p.expect(b')');
                (base as i64).wrapping_add(off) as u64 as u128
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" => {
                p.expect(b'(');
                let ft = p.ty(&self.types);
                let v = self.scalar_const(p, &ft);
                assert!(p.eat_word("to"));
                let tt = p.ty(&self.types);
                p.expect(b')');
                mask(v, tt.bits())
            }
            "add" | "sub" | "xor" | "mul" | "and" | "or" => {
                loop {
                    let k = p.peek_word();
                    if k == "nuw" || k == "nsw" {
                        p.word();
                    } else {
                        break;
                    }
                }
                p.expect(b'(');
                let ft = p.ty(&self.types);
                let a = self.scalar_const(p, &ft);
                p.expect(b',');
                let ft2 = p.ty(&self.types);
                let b = self.scalar_const(p, &ft2);
                p.expect(b')');
                let r = match w {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "xor" => a ^ b,
                    "mul" => a.wrapping_mul(b),
                    "and" => a & b,
                    _ => a | b,
                };
                mask(r, ft.bits())
            }
            _ => {
                if matches!(ty, Ty::Float | Ty::Double) {
                    if let Some(h) = w.strip_prefix("0x") {
                        let d = u64::from_str_radix(h, 16).unwrap();
                        return if matches!(ty, Ty::Float) { (f64::from_bits(d) as f32).to_bits() as u128 } else { d as u128 };
                    }
                    let f: f64 = w.parse().unwrap_or_else(|_| panic!("float const {w}"));
                    return if matches!(ty, Ty::Float) { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 };
                }
                if let Some(x) = w.strip_prefix('-') {
                    let v: u128 = x.parse().unwrap_or_else(|_| panic!("int const {w}"));
                    return mask((!v).wrapping_add(1), ty.bits());
                }
                mask(w.parse::<u128>().unwrap_or_else(|_| panic!("const '{w}' near {}", String::from_utf8_lossy(&p.s[p.i.saturating_sub(100)..(p.i + 60).min(p.s.len())]))), ty.bits())
            }
        }
    }

    pub fn addr_of(&self, n: &str) -> u64 {
        match self.names.get(n) {
            Some(GRef::Var(a)) => *a,
            Some(GRef::Func(i)) => FN_BASE + 16 * *i as u64,
            Some(GRef::Ext(i)) => EXT_BASE + 16 * *i as u64,
            None => panic!("unknown global @{n}"),
        }
    }

    pub fn const_val(&self, p: &mut P, ty: &Ty) -> Val {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let c = p.peek();
                if c == b'{' || c == b'<' || c == b'[' {
                    let open = c;
                    p.i += 1;
                    let mut close = match open {
                        b'[' => b']',
                        b'{' => b'}',
                        _ => b'>',
                    };
                    let mut packed = false;
                    if open == b'<' && p.peek() == b'{' {
                        p.i += 1;
                        packed = true;
                        close = b'}';
                    }
                    let mut v = vec![];
                    while !p.eat(close) {
                        let t = p.ty(&self.types);
                        v.push(self.const_val(p, &t));
                        p.eat(b',');
                    }
                    if packed {
                        p.expect(b'>');
                    }
                    return Val::A(Arc::new(v));
                }
                if c == b'c' && p.s.get(p.i + 1) == Some(&b'"') {
                    p.i += 1;
                    let b = p.quoted();
                    return Val::A(Arc::new(b.into_iter().map(|x| Val::I(x as u64)).collect()));
                }
                if p.peek_word() == "splat" {
                    p.word();
                    p.expect(b'(');
                    let t = p.ty(&self.types);
                    let v = self.const_val(p, &t);
                    p.expect(b')');
                    return Val::A(Arc::new(vec![v; ty.count()]));
                }
                p.word();
                zero_val(ty)
            }
            _ => {
                let v = self.scalar_const(p, ty);
                if ty.bits() > 64 {
                    Val::W(Box::new(v))
                } else {
                    Val::I(v as u64)
                }
            }
        }
    }

    pub fn func(&self, id: u32) -> &Func {
        let s = &self.funcs[id as usize];
        s.cell.get_or_init(|| crate::decode::decode(self, &self.text[s.range.0..s.range.1], &s.name))
    }
}

pub fn zero_val(ty: &Ty) -> Val {
    match ty {
        Ty::Struct(fs, _) => Val::A(Arc::new(fs.iter().map(zero_val).collect())),
        Ty::Arr(n, t) => Val::A(Arc::new((0..*n).map(|_| zero_val(t)).collect())),
        Ty::Vec(n, t) => Val::A(Arc::new((0..*n).map(|_| zero_val(t)).collect())),
        _ if ty.bits() > 64 => Val::W(Box::new(0)),
        _ => Val::I(0),
    }
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}
fn memchr(b: &[u8], from: usize, c: u8) -> usize {
    let mut i = from;
    while i < b.len() && b[i] != c {
        i += 1;
    }
    i
}
