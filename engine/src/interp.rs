//! Concolic interpreter for one path; decisions on symbolic values are
//! resolved by the SMT solver and alternatives are handed to the explorer.
use crate::expr::*;
use crate::ext::{classify, X};
use crate::ir::*;
use crate::solver::*;
use std::sync::Arc;

pub const MEM_SIZE: u64 = 0x3000_0000;
const STACK_SIZE: u64 = 0x400_0000;

#[derive(Debug)]
pub enum Stop {
    Done,
    Panic(String),
    Assume,
    Fail(u32, String),
    Err(String),
}

#[derive(Clone)]
pub struct Item {
    pub model: Vec<u128>,
    pub bound: usize,
}

pub struct Mem {
    buf: Vec<u8>,
    sym: FxMap<u64, E>,
    cnt: Vec<u8>,
    heap_base: u64,
    heap: u64,
    heap_hwm: u64,
    stack_base: u64,
    pub sp: u64,
    sp_hwm: u64,
    free: Vec<Vec<u64>>,
}

impl Mem {
    fn new(m: &Module) -> Mem {
        let heap_base = (m.glob_end + 0xfffff) & !0xfffff;
        Mem {
            buf: vec![0u8; MEM_SIZE as usize],
            sym: FxMap::default(),
            cnt: vec![0u8; (MEM_SIZE / 64) as usize + 2],
            heap_base,
            heap: heap_base,
            heap_hwm: heap_base,
            stack_base: MEM_SIZE - STACK_SIZE,
            sp: MEM_SIZE - STACK_SIZE,
            sp_hwm: MEM_SIZE - STACK_SIZE,
            free: vec![],
        }
    }
    fn reset(&mut self, m: &Module) {
        for a in self.sym.keys() {
            self.cnt[(*a >> 6) as usize] = 0;
        }
        self.sym.clear();
        self.buf[GLOB_BASE as usize..GLOB_BASE as usize + m.image.len()].copy_from_slice(&m.image);
        self.buf[self.heap_base as usize..self.heap_hwm as usize].fill(0);
        self.buf[self.stack_base as usize..self.sp_hwm as usize].fill(0);
        self.heap = self.heap_base;
        self.heap_hwm = self.heap_base;
        self.sp = self.stack_base;
        self.sp_hwm = self.stack_base;
        self.free.iter_mut().for_each(|v| v.clear());
    }
    #[inline]
    fn ok(&self, a: u64, n: u64) -> bool {
        a >= GLOB_BASE && a < MEM_SIZE && n <= MEM_SIZE - a
    }
    #[inline]
    fn any_sym(&self, a: u64, n: u64) -> bool {
        if n == 0 {
            return false;
        }
        let (l, h) = ((a >> 6) as usize, ((a + n - 1) >> 6) as usize);
        if l == h {
            return self.cnt[l] != 0;
        }
        self.cnt[l..=h].iter().any(|c| *c != 0)
    }
    fn set_sym(&mut self, a: u64, e: Option<E>) {
        match e {
            Some(e) => {
                if self.sym.insert(a, e).is_none() {
                    self.cnt[(a >> 6) as usize] += 1;
                }
            }
            None => {
                if self.sym.remove(&a).is_some() {
                    self.cnt[(a >> 6) as usize] -= 1;
                }
            }
        }
    }
    #[inline]
    fn clear_sym(&mut self, a: u64, n: u64) {
        if !self.sym.is_empty() && self.any_sym(a, n) {
            for i in a..a + n {
                self.set_sym(i, None);
            }
        }
    }
    #[inline]
    fn rd(&self, a: u64, n: usize) -> u128 {
        let a = a as usize;
        match n {
            8 => u64::from_le_bytes(self.buf[a..a + 8].try_into().unwrap()) as u128,
            1 => self.buf[a] as u128,
            4 => u32::from_le_bytes(self.buf[a..a + 4].try_into().unwrap()) as u128,
            _ => {
                let mut t = [0u8; 16];
                t[..n].copy_from_slice(&self.buf[a..a + n]);
                u128::from_le_bytes(t)
            }
        }
    }
    #[inline]
    fn wr(&mut self, a: u64, n: usize, v: u128) {
        let a = a as usize;
        match n {
            8 => self.buf[a..a + 8].copy_from_slice(&(v as u64).to_le_bytes()),
            1 => self.buf[a] = v as u8,
            4 => self.buf[a..a + 4].copy_from_slice(&(v as u32).to_le_bytes()),
            _ => self.buf[a..a + n].copy_from_slice(&v.to_le_bytes()[..n]),
        }
    }
    fn copy(&mut self, d: u64, s: u64, n: u64) {
        let has = !self.sym.is_empty();
        if has && self.any_sym(s, n) {
            let v: Vec<Option<E>> = (s..s + n).map(|a| self.sym.get(&a).copied()).collect();
            for (i, e) in v.into_iter().enumerate() {
                self.set_sym(d + i as u64, e);
            }
        } else if has {
            self.clear_sym(d, n);
        }
        self.buf.copy_within(s as usize..(s + n) as usize, d as usize);
    }
    fn class(sz: u64) -> usize {
        // classes: multiples of 16 up to 1024, then powers of two
        if sz <= 1024 {
            ((sz + 15) / 16) as usize
        } else {
            64 + (64 - (sz - 1).leading_zeros() as usize) - 10
        }
    }
    fn class_size(c: usize) -> u64 {
        if c <= 64 {
            c as u64 * 16
        } else {
            1u64 << (c - 64 + 10)
        }
    }
    fn alloc(&mut self, sz: u64, al: u64) -> u64 {
        let sz = sz.max(1);
        if sz > 0x1000_0000 {
            return 0;
        }
        if al <= 16 {
            let c = Self::class(sz);
            if self.free.len() <= c {
                self.free.resize(c + 1, vec![]);
            }
            if let Some(a) = self.free[c].pop() {
                self.wr(a - 16, 8, sz as u128);
                return a;
            }
            let a = self.heap + 16;
            let cs = Self::class_size(c);
            self.heap = a + cs;
            if self.heap > self.stack_base {
                return 0;
            }
            self.heap_hwm = self.heap_hwm.max(self.heap);
            self.wr(a - 16, 8, sz as u128);
            self.wr(a - 8, 8, c as u128);
            a
        } else {
            let a = (self.heap + 16 + al - 1) & !(al - 1);
            self.heap = a + ((sz + 15) & !15);
            if self.heap > self.stack_base {
                return 0;
            }
            self.heap_hwm = self.heap_hwm.max(self.heap);
            self.wr(a - 16, 8, sz as u128);
            self.wr(a - 8, 8, 0xffff);
            a
        }
    }
    fn size_of(&self, a: u64) -> u64 {
        self.rd(a - 16, 8) as u64
    }
    fn dealloc(&mut self, a: u64) {
        if a == 0 {
            return;
        }
        let c = self.rd(a - 8, 8) as usize;
        if c != 0xffff {
            self.free[c].push(a);
        }
    }
}

struct Frame<'m> {
    f: &'m Func,
    pc: u32,
    base: usize,
    sp: u64,
}

struct Comp {
    vars: u128,
    cons: Vec<E>,
    hash: u128,
}

pub struct Vm<'m> {
    pub m: &'m Module,
    pub mem: Mem,
    pub ar: Arena,
    pub solver: Solver,
    pub sh: &'m Shared,
    model: Vec<u128>,
    bound: usize,
    pub decisions: usize,
    comps: Vec<Comp>,
    known: FxMap<E, bool>,
    pub children: Vec<Item>,
    pub steps: u64,
    pub max_steps: u64,
    pub values: Vec<u128>,
    pub checks_const: u64,
    pub checks_smt: u64,
    pub reached: std::collections::BTreeSet<u32>,
    pub observed: u64,
    pub notes: Vec<String>,
    pub violations: Vec<(String, Vec<u128>)>,
    regs: Vec<Val>,
    pub trace_fn: bool,
    keys: Vec<u64>,
}

type R<T> = Result<T, Stop>;

macro_rules! err { ($($t:tt)*) => { return Err(Stop::Err(format!($($t)*))) } }

fn f32v(x: u64) -> f32 {
    f32::from_bits(x as u32)
}
fn f64v(x: u64) -> f64 {
    f64::from_bits(x)
}

impl<'m> Vm<'m> {
    pub fn new(m: &'m Module, sh: &'m Shared, timeout_ms: u64, max_steps: u64) -> Self {
        Vm {
            m,
            mem: Mem::new(m),
            ar: Arena::default(),
            solver: Solver::new(timeout_ms),
            sh,
            model: vec![],
            bound: 0,
            decisions: 0,
            comps: vec![],
            known: FxMap::default(),
            children: vec![],
            steps: 0,
            max_steps,
            values: vec![],
            checks_const: 0,
            checks_smt: 0,
            reached: Default::default(),
            observed: 0xcbf29ce484222325,
            notes: vec![],
            violations: vec![],
            regs: vec![],
            trace_fn: false,
            keys: vec![],
        }
    }

    pub fn run_path(&mut self, entry: u32, item: &Item) -> Stop {
        self.mem.reset(self.m);
        self.ar.reset();
        self.model = item.model.clone();
        self.bound = item.bound;
        self.decisions = 0;
        self.comps.clear();
        self.known.clear();
        self.children.clear();
        self.steps = 0;
        self.values.clear();
        self.observed = 0xcbf29ce484222325;
        self.notes.clear();
        self.violations.clear();
        self.regs.clear();
        self.keys.clear();
        match self.exec(entry) {
            Ok(()) => Stop::Done,
            Err(s) => s,
        }
    }

    // ---- symbolic decisions -------------------------------------------------
    fn gather(&self, vars: u128) -> (Vec<E>, u128) {
        let mut cons = vec![];
        let mut h = 0u128;
        for c in &self.comps {
            if c.vars & vars != 0 {
                cons.extend_from_slice(&c.cons);
                h = h.wrapping_add(c.hash);
            }
        }
        (cons, h)
    }
    fn query(&mut self, extra: E) -> R<QRes> {
        if let Some(k) = self.ar.cst(extra) {
            return Ok(if k == 1 { QRes::Sat(vec![]) } else { QRes::Unsat });
        }
        let n = &self.ar.nodes[extra as usize];
        let (vars, hash) = (n.vars, n.hash);
        let (mut cons, h) = self.gather(vars);
        cons.push(extra);
        match self.solver.check(&self.ar, &cons, (h, hash), self.sh) {
            QRes::Unknown(s) => Err(Stop::Err(format!("solver: {s}"))),
            r => Ok(r),
        }
    }
    fn add(&mut self, c: E) {
        if self.ar.cst(c).is_some() {
            return;
        }
        if let O::Bin(BinOp::And, a, b) = self.ar.o(c) {
            if self.ar.w(c) == 1 {
                self.add(a);
                self.add(b);
                return;
            }
        }
        if self.known.get(&c) == Some(&true) {
            return;
        }
        self.learn(c);
        let vars = self.ar.nodes[c as usize].vars;
        let mut nc = Comp { vars, cons: vec![c], hash: self.ar.nodes[c as usize].hash };
        let mut i = 0;
        while i < self.comps.len() {
            if self.comps[i].vars & nc.vars != 0 {
                let x = self.comps.swap_remove(i);
                nc.vars |= x.vars;
                nc.cons.extend(x.cons);
                nc.hash = nc.hash.wrapping_add(x.hash);
                i = 0;
            } else {
                i += 1;
            }
        }
        self.comps.push(nc);
    }
    fn learn(&mut self, c: E) {
        self.known.insert(c, true);
        let n = self.ar.not(c);
        self.known.insert(n, false);
    }
    fn child(&mut self, idx: usize, asg: Vec<(u32, u128)>) {
        let mut model = self.model.clone();
        for (i, v) in self.values.iter().enumerate() {
            if i < model.len() {
                model[i] = *v;
            } else {
                model.push(*v);
            }
        }
        for (v, x) in asg {
            model[v as usize] = x;
        }
        self.children.push(Item { model, bound: idx + 1 });
    }
    pub fn branch(&mut self, c: E) -> R<bool> {
        if let Some(k) = self.ar.cst(c) {
            return Ok(k == 1);
        }
        if let Some(b) = self.known.get(&c) {
            return Ok(*b);
        }
        let taken = self.ar.sh(c) != 0;
        let lit = if taken { c } else { self.ar.not(c) };
        let other = self.ar.not(lit);
        match self.query(other)? {
            QRes::Unsat => {
                self.learn(lit);
            }
            QRes::Sat(asg) => {
                let idx = self.decisions;
                self.decisions += 1;
                if idx >= self.bound {
                    self.child(idx, asg);
                }
                self.add(lit);
            }
            _ => unreachable!(),
        }
        Ok(taken)
    }
    fn assume(&mut self, c: E) -> R<()> {
        if let Some(k) = self.ar.cst(c) {
            return if k == 1 { Ok(()) } else { Err(Stop::Assume) };
        }
        if self.ar.sh(c) != 0 {
            self.add(c);
            return Ok(());
        }
        // model violates the assumption: restart on the satisfying side
        let idx = self.decisions;
        if let QRes::Sat(asg) = self.query(c)? {
            if idx >= self.bound {
                self.child(idx.max(1) - 1, asg);
                // the child must re-explore from this very index: assumptions are not decisions
                let k = self.children.len() - 1;
                self.children[k].bound = idx;
            }
        }
        Err(Stop::Assume)
    }
    fn enumerate(&mut self, e: E, limit: usize) -> R<Vec<(u128, Vec<(u32, u128)>)>> {
        let w = self.ar.w(e);
        let v0 = self.ar.sh(e);
        let mut out = vec![(v0, vec![])];
        let kv = self.ar.k(v0, w);
        let mut conj = self.ar.cmp(Pred::Ne, e, kv);
        loop {
            match self.query(conj)? {
                QRes::Unsat => return Ok(out),
                QRes::Sat(asg) => {
                    let v = self.eval_with(e, &asg);
                    if out.iter().any(|(x, _)| *x == v) {
                        err!("enumeration: solver model repeats a value");
                    }
                    out.push((v, asg));
                    if out.len() > limit {
                        err!("more than {limit} feasible values for a concretized term");
                    }
                    let kv = self.ar.k(v, w);
                    let ne = self.ar.cmp(Pred::Ne, e, kv);
                    conj = self.ar.bin(BinOp::And, conj, ne);
                }
                _ => unreachable!(),
            }
        }
    }
    fn eval_with(&self, e: E, asg: &[(u32, u128)]) -> u128 {
        let mut memo: FxMap<E, u128> = FxMap::default();
        self.eval_rec(e, asg, &mut memo)
    }
    fn eval_rec(&self, e: E, asg: &[(u32, u128)], memo: &mut FxMap<E, u128>) -> u128 {
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let n = &self.ar.nodes[e as usize];
        let w = n.w;
        let v = match n.o {
            O::Var(i) => asg.iter().find(|(v, _)| *v == i).map(|(_, x)| *x).unwrap_or(n.shadow),
            O::Const(k) => k,
            O::Bin(op, a, b) => bin_eval(op, w, self.eval_rec(a, asg, memo), self.eval_rec(b, asg, memo)),
            O::Cmp(p, a, b) => cmp_eval(p, self.ar.w(a), self.eval_rec(a, asg, memo), self.eval_rec(b, asg, memo)) as u128,
            O::Ite(c, a, b) => {
                if self.eval_rec(c, asg, memo) != 0 {
                    self.eval_rec(a, asg, memo)
                } else {
                    self.eval_rec(b, asg, memo)
                }
            }
            O::Zext(a) => self.eval_rec(a, asg, memo),
            O::Sext(a) => mask(sext(self.eval_rec(a, asg, memo), self.ar.w(a)) as u128, w),
            O::Extract(lo, a) => mask(self.eval_rec(a, asg, memo) >> lo, w),
            O::Concat(a, b) => self.eval_rec(a, asg, memo) << self.ar.w(b) | self.eval_rec(b, asg, memo),
        };
        memo.insert(e, v);
        v
    }
    fn concretize_e(&mut self, e: E) -> R<u128> {
        if let Some(k) = self.ar.cst(e) {
            return Ok(k);
        }
        let w = self.ar.w(e);
        let v0 = self.ar.sh(e);
        let kv = self.ar.k(v0, w);
        let eq = self.ar.cmp(Pred::Eq, e, kv);
        if let Some(true) = self.known.get(&eq) {
            return Ok(v0);
        }
        let ne = self.ar.not(eq);
        if let QRes::Unsat = self.query(ne)? {
            self.learn(eq);
            return Ok(v0);
        }
        let idx = self.decisions;
        self.decisions += 1;
        if idx >= self.bound {
            for (_, asg) in self.enumerate(e, 4096)?.into_iter().skip(1) {
                self.child(idx, asg);
            }
        }
        self.add(eq);
        Ok(v0)
    }
    fn conc(&mut self, v: &Val) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::S(e) => Ok(self.concretize_e(*e)? as u64),
            Val::W(x) => Ok(**x as u64),
            Val::A(_) => err!("aggregate where scalar expected"),
        }
    }

    // ---- values -------------------------------------------------------------
    fn to_e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::I(x) => self.ar.k(*x as u128, w),
            Val::W(x) => self.ar.k(**x, w),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate to_e"),
        }
    }
    fn from_e(&self, e: E) -> Val {
        match self.ar.cst(e) {
            Some(k) => {
                if self.ar.w(e) > 64 {
                    Val::W(Box::new(k))
                } else {
                    Val::I(k as u64)
                }
            }
            None => Val::S(e),
        }
    }
    fn num(v: &Val) -> Option<u128> {
        match v {
            Val::I(x) => Some(*x as u128),
            Val::W(x) => Some(**x),
            _ => None,
        }
    }
    fn mkv(x: u128, w: u32) -> Val {
        if w > 64 {
            Val::W(Box::new(mask(x, w)))
        } else {
            Val::I(mask(x, w) as u64)
        }
    }

    fn load(&mut self, a: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let n = ty.count();
                if let Ty::Vec(_, e) = ty {
                    if e.bits() % 8 != 0 {
                        err!("load of bit vector type");
                    }
                }
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    let (o, t) = ty.field(i);
                    v.push(self.load(a + o, &t)?);
                }
                Ok(Val::A(Arc::new(v)))
            }
            _ => {
                let w = ty.bits();
                let n = ((w + 7) / 8) as u64;
                if !self.mem.ok(a, n) {
                    err!("invalid load of {n} bytes at {a:#x}");
                }
                if !self.mem.sym.is_empty() && self.mem.any_sym(a, n) && (a..a + n).any(|x| self.mem.sym.contains_key(&x)) {
                    let mut acc: Option<E> = None;
                    for i in 0..n {
                        let b = match self.mem.sym.get(&(a + i)) {
                            Some(e) => *e,
                            None => {
                                let k = self.mem.buf[(a + i) as usize];
                                self.ar.k(k as u128, 8)
                            }
                        };
                        acc = Some(match acc {
                            None => b,
                            Some(x) => self.ar.concat(b, x),
                        });
                    }
                    let mut e = acc.unwrap();
                    if n as u32 * 8 != w {
                        e = self.ar.extract(0, w, e);
                    }
                    return Ok(self.from_e(e));
                }
                let x = self.mem.rd(a, n as usize);
                Ok(if w > 64 {
                    Val::W(Box::new(mask(x, w)))
                } else if w < 64 {
                    Val::I(x as u64 & ((1u64 << w) - 1))
                } else {
                    Val::I(x as u64)
                })
            }
        }
    }
    fn store(&mut self, a: u64, ty: &Ty, v: &Val) -> R<()> {
        match v {
            Val::A(vs) => {
                for (i, x) in vs.iter().enumerate() {
                    let (o, t) = ty.field(i);
                    self.store(a + o, &t, x)?;
                }
                Ok(())
            }
            _ => {
                let n = ty.store_size();
                if !self.mem.ok(a, n) {
                    err!("invalid store of {n} bytes at {a:#x}");
                }
                match v {
                    Val::I(x) => {
                        self.mem.clear_sym(a, n);
                        self.mem.wr(a, n as usize, *x as u128);
                    }
                    Val::W(x) => {
                        self.mem.clear_sym(a, n);
                        self.mem.wr(a, n as usize, **x);
                    }
                    Val::S(e) => {
                        let mut e = *e;
                        let w = self.ar.w(e);
                        if w != n as u32 * 8 {
                            e = self.ar.zext(e, n as u32 * 8);
                        }
                        let s = self.ar.sh(e);
                        self.mem.wr(a, n as usize, s);
                        for i in 0..n {
                            let b = self.ar.extract(8 * i as u32, 8, e);
                            let o = if self.ar.cst(b).is_some() { None } else { Some(b) };
                            self.mem.set_sym(a + i, o);
                        }
                    }
                    Val::A(_) => unreachable!(),
                }
                Ok(())
            }
        }
    }
    fn byte_e(&mut self, a: u64) -> E {
        match self.mem.sym.get(&a) {
            Some(e) => *e,
            None => {
                let k = self.mem.buf[a as usize];
                self.ar.k(k as u128, 8)
            }
        }
    }
    fn load_sym(&mut self, e: E, ty: &Ty) -> R<Val> {
        let w = ty.bits();
        if matches!(ty, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..)) {
            let a = self.concretize_e(e)? as u64;
            return self.load(a, ty);
        }
        let vals = self.enumerate(e, 300)?;
        let mut acc: Option<E> = None;
        for (a, _) in vals.iter().rev() {
            let v = self.load(*a as u64, ty)?;
            let x = self.to_e(&v, w);
            acc = Some(match acc {
                None => x,
                Some(y) => {
                    let k = self.ar.k(*a, 64);
                    let c = self.ar.cmp(Pred::Eq, e, k);
                    self.ar.ite(c, x, y)
                }
            });
        }
        Ok(self.from_e(acc.unwrap()))
    }

    fn bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                BinOp::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem => {
                    macro_rules! f {
                        ($p:expr,$q:expr) => {
                            match op {
                                BinOp::FAdd => $p + $q,
                                BinOp::FSub => $p - $q,
                                BinOp::FMul => $p * $q,
                                BinOp::FDiv => $p / $q,
                                _ => $p % $q,
                            }
                        };
                    }
                    return Ok(Val::I(if w == 64 { f!(f64v(x), f64v(y)).to_bits() } else { f!(f32v(x), f32v(y)).to_bits() as u64 }));
                }
                _ => {
                    if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) && y == 0 {
                        err!("division by zero");
                    }
                    bin_eval(op, w, x as u128, y as u128) as u64
                }
            };
            return Ok(Val::I(if w < 64 { r & ((1u64 << w) - 1) } else { r }));
        }
        if let (Some(x), Some(y)) = (Self::num(a), Self::num(b)) {
            if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) && y == 0 {
                err!("division by zero");
            }
            return Ok(Self::mkv(bin_eval(op, w, x, y), w));
        }
        if matches!(op, BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem) {
            err!("symbolic floating point");
        }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let r = self.ar.bin(op, x, y);
        Ok(self.from_e(r))
    }
    fn cmpv(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                _ => cmp_eval(p, w, x as u128, y as u128),
            };
            return Val::I(r as u64);
        }
        if let (Some(x), Some(y)) = (Self::num(a), Self::num(b)) {
            return Val::I(cmp_eval(p, w, x, y) as u64);
        }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let r = self.ar.cmp(p, x, y);
        self.from_e(r)
    }
    fn flatten(&mut self, v: &Val, ty: &Ty) -> R<E> {
        match (v, ty) {
            (Val::A(vs), Ty::Vec(_, e)) => {
                let ew = e.bits();
                let mut acc: Option<E> = None;
                for x in vs.iter() {
                    let xe = self.to_e(x, ew);
                    acc = Some(match acc {
                        None => xe,
                        Some(y) => self.ar.concat(xe, y),
                    });
                }
                Ok(acc.unwrap())
            }
            (Val::A(_), _) => err!("flatten aggregate"),
            _ => Ok(self.to_e(v, ty.bits())),
        }
    }
    fn unflatten(&mut self, e: E, ty: &Ty) -> Val {
        match ty {
            Ty::Vec(n, t) => {
                let ew = t.bits();
                let v = (0..*n)
                    .map(|i| {
                        let x = self.ar.extract(i * ew, ew, e);
                        self.from_e(x)
                    })
                    .collect();
                Val::A(Arc::new(v))
            }
            _ => self.from_e(e),
        }
    }
    fn cast(&mut self, op: CastOp, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        if op == CastOp::Bitcast {
            if !matches!(from, Ty::Vec(..)) && !matches!(to, Ty::Vec(..)) {
                return Ok(v.clone());
            }
            let e = self.flatten(v, from)?;
            return Ok(self.unflatten(e, to));
        }
        if let (Val::A(vs), Ty::Vec(_, f), Ty::Vec(_, t)) = (v, from, to) {
            let mut r = vec![];
            for x in vs.iter() {
                r.push(self.cast(op, f, t, x)?);
            }
            return Ok(Val::A(Arc::new(r)));
        }
        let (fw, tw) = (from.bits(), to.bits());
        if let Some(x) = Self::num(v) {
            return Ok(match op {
                CastOp::Trunc | CastOp::Zext => Self::mkv(x, tw),
                CastOp::Sext => Self::mkv(sext(x, fw) as u128, tw),
                CastOp::UiToFp => Val::I(if tw == 64 { (x as f64).to_bits() } else { (x as f32).to_bits() as u64 }),
                CastOp::SiToFp => Val::I(if tw == 64 { (sext(x, fw) as f64).to_bits() } else { (sext(x, fw) as f32).to_bits() as u64 }),
                CastOp::FpToUi => {
                    let d = if fw == 64 { f64v(x as u64) } else { f32v(x as u64) as f64 };
                    Self::mkv(d as u128, tw)
                }
                CastOp::FpToSi => {
                    let d = if fw == 64 { f64v(x as u64) } else { f32v(x as u64) as f64 };
                    Self::mkv(d as i128 as u128, tw)
                }
                CastOp::FpExt => Val::I((f32v(x as u64) as f64).to_bits()),
                CastOp::FpTrunc => Val::I((f64v(x as u64) as f32).to_bits() as u64),
                CastOp::Bitcast => unreachable!(),
            });
        }
        let e = match v {
            Val::S(e) => *e,
            _ => err!("cast of aggregate"),
        };
        let r = match op {
            CastOp::Trunc => self.ar.extract(0, tw, e),
            CastOp::Zext => self.ar.zext(e, tw),
            CastOp::Sext => self.ar.sext(e, tw),
            _ => err!("symbolic floating point cast"),
        };
        Ok(self.from_e(r))
    }
    fn select(&mut self, c: &Val, a: &Val, b: &Val, w: u32) -> R<Val> {
        match c {
            Val::I(k) => Ok(if *k != 0 { a.clone() } else { b.clone() }),
            Val::S(e) => {
                if let (Val::A(x), Val::A(y)) = (a, b) {
                    // aggregate select: fork
                    let (x, y) = (x.clone(), y.clone());
                    return Ok(if self.branch(*e)? { Val::A(x) } else { Val::A(y) });
                }
                let (x, y) = (self.to_e(a, w), self.to_e(b, w));
                let r = self.ar.ite(*e, x, y);
                Ok(self.from_e(r))
            }
            _ => err!("select cond"),
        }
    }

    // ---- main loop ------------------------------------------------------------
    fn exec(&mut self, entry: u32) -> R<()> {
        let m = self.m;
        let f = m.func(entry);
        let mut frames: Vec<Frame<'m>> = Vec::with_capacity(256);
        let mut regs: Vec<Val> = std::mem::take(&mut self.regs);
        regs.resize_with(f.nregs as usize, || Val::I(0));
        frames.push(Frame { f, pc: 0, base: 0, sp: self.mem.sp });
        let r = self.run(&mut frames, &mut regs);
        if let Err(Stop::Err(s)) = r {
            let bt: Vec<String> = frames.iter().rev().take(12).map(|f| f.f.name.clone()).collect();
            return Err(Stop::Err(format!("{s} [stack: {}]", bt.join(" < "))));
        }
        if let Err(Stop::Panic(s)) = r {
            let bt: Vec<String> = frames.iter().rev().take(8).map(|f| f.f.name.clone()).collect();
            return Err(Stop::Panic(format!("{s} [stack: {}]", bt.join(" < "))));
        }
        regs.clear();
        self.regs = regs;
        r
    }

    fn run(&mut self, frames: &mut Vec<Frame<'m>>, regs: &mut Vec<Val>) -> R<()> {
        let m = self.m;
        let mut fr_f: &'m Func = frames.last().unwrap().f;
        let mut pc: usize = 0;
        let mut base: usize = frames.last().unwrap().base;
        let mut steps: u64 = 0;
        let mut tmp: Vec<Val> = Vec::with_capacity(16);
        macro_rules! get {
            ($o:expr) => {
                match $o {
                    Op::R(r) => regs[base + *r as usize].clone(),
                    Op::C(k) => Val::I(*k),
                    Op::K(v) => (**v).clone(),
                }
            };
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                regs[base + $d as usize] = v;
            }};
        }
        macro_rules! jump {
            ($e:expr) => {{
                let e: &Edge = $e;
                match e.moves.len() {
                    0 => {}
                    1 => {
                        let v = get!(&e.moves[0].1);
                        set!(e.moves[0].0, v);
                    }
                    _ => {
                        tmp.clear();
                        for (_, o) in e.moves.iter() {
                            let v = get!(o);
                            tmp.push(v);
                        }
                        for ((d, _), v) in e.moves.iter().zip(tmp.drain(..)) {
                            regs[base + *d as usize] = v;
                        }
                    }
                }
                pc = e.pc as usize;
                continue;
            }};
        }
        loop {
            steps += 1;
            if steps & 0xfff == 0 {
                self.steps = steps;
                if steps > self.max_steps {
                    err!("step bound {} exceeded", self.max_steps);
                }
            }
            let ins = &fr_f.code[pc];
            match ins {
                Inst::Bin { op, w, n, d, a, b } => {
                    let (x, y) = (get!(a), get!(b));
                    let r = if *n == 0 {
                        self.bin(*op, *w, &x, &y)?
                    } else {
                        match (&x, &y) {
                            (Val::A(p), Val::A(q)) => {
                                let mut v = Vec::with_capacity(p.len());
                                for (s, t) in p.iter().zip(q.iter()) {
                                    v.push(self.bin(*op, *w, s, t)?);
                                }
                                Val::A(Arc::new(v))
                            }
                            _ => err!("vector op"),
                        }
                    };
                    set!(*d, r);
                }
                Inst::Cmp { p, w, n, d, a, b } => {
                    let (x, y) = (get!(a), get!(b));
                    let r = if *n == 0 {
                        self.cmpv(*p, *w, &x, &y)
                    } else {
                        match (&x, &y) {
                            (Val::A(s), Val::A(t)) => Val::A(Arc::new(s.iter().zip(t.iter()).map(|(s, t)| self.cmpv(*p, *w, s, t)).collect())),
                            _ => err!("vector cmp"),
                        }
                    };
                    set!(*d, r);
                }
                Inst::FCmp { p, dbl, d, a, b } => {
                    let (x, y) = (get!(a), get!(b));
                    let (x, y) = match (x, y) {
                        (Val::I(x), Val::I(y)) => (x, y),
                        _ => err!("symbolic fcmp"),
                    };
                    let (x, y) = if *dbl { (f64v(x), f64v(y)) } else { (f32v(x) as f64, f32v(y) as f64) };
                    let un = x.is_nan() || y.is_nan();
                    let r = match p {
                        0 => x == y,
                        1 => x > y,
                        2 => x >= y,
                        3 => x < y,
                        4 => x <= y,
                        5 => !un && x != y,
                        6 => !un,
                        7 => un || x == y,
                        8 => un || x > y,
                        9 => un || x >= y,
                        10 => un || x < y,
                        11 => un || x <= y,
                        12 => un || x != y,
                        _ => un,
                    };
                    set!(*d, Val::I(r as u64));
                }
                Inst::FNeg { dbl, d, a } => {
                    let x = match get!(a) {
                        Val::I(x) => x,
                        _ => err!("symbolic fneg"),
                    };
                    set!(*d, Val::I(if *dbl { x ^ (1 << 63) } else { x ^ (1 << 31) }));
                }
                Inst::Cast { op, from, to, d, a } => {
                    let x = get!(a);
                    let r = match (&x, op, to) {
                        (Val::I(v), CastOp::Zext, Ty::Int(w)) if *w <= 64 => Val::I(*v),
                        (Val::I(v), CastOp::Trunc, Ty::Int(w)) if *w < 64 => Val::I(*v & ((1u64 << *w) - 1)),
                        _ => self.cast(*op, from, to, &x)?,
                    };
                    set!(*d, r);
                }
                Inst::Load { d, ty, p } => {
                    let r = match get!(p) {
                        Val::I(a) => self.load(a, ty)?,
                        Val::S(e) => self.load_sym(e, ty)?,
                        _ => err!("load ptr"),
                    };
                    set!(*d, r);
                }
                Inst::Store { ty, v, p } => {
                    let x = get!(v);
                    let a = get!(p);
                    let a = self.conc(&a)?;
                    self.store(a, ty, &x)?;
                }
                Inst::Gep { d, base: b, off, terms } => {
                    let bv = get!(b);
                    let r = match (&bv, terms.len()) {
                        (Val::I(x), 0) => Val::I(x.wrapping_add(*off as u64)),
                        _ => {
                            let mut acc = self.bin(BinOp::Add, 64, &bv, &Val::I(*off as u64))?;
                            for (o, w, sc) in terms.iter() {
                                let iv = get!(o);
                                let t = match &iv {
                                    Val::I(x) => Val::I((sext(*x as u128, *w) as i64).wrapping_mul(*sc) as u64),
                                    _ => {
                                        let e = self.to_e(&iv, *w);
                                        let e = self.ar.sext(e, 64);
                                        let k = self.ar.k(*sc as u64 as u128, 64);
                                        let r = self.ar.bin(BinOp::Mul, e, k);
                                        self.from_e(r)
                                    }
                                };
                                acc = self.bin(BinOp::Add, 64, &acc, &t)?;
                            }
                            acc
                        }
                    };
                    set!(*d, r);
                }
                Inst::Alloca { d, size, align, n } => {
                    let k = get!(n);
                    let k = self.conc(&k)?;
                    let a = (self.mem.sp + align.max(&16) - 1) & !(align.max(&16) - 1);
                    self.mem.sp = a + size * k + 16;
                    if self.mem.sp > MEM_SIZE {
                        err!("stack overflow");
                    }
                    self.mem.sp_hwm = self.mem.sp_hwm.max(self.mem.sp);
                    set!(*d, Val::I(a));
                }
                Inst::Select { d, c, a, b, vec, w } => {
                    let cv = get!(c);
                    let (x, y) = (get!(a), get!(b));
                    let r = if *vec {
                        match (&cv, &x, &y) {
                            (Val::A(c), Val::A(x), Val::A(y)) => {
                                let mut v = vec![];
                                for i in 0..c.len() {
                                    v.push(self.select(&c[i], &x[i], &y[i], *w)?);
                                }
                                Val::A(Arc::new(v))
                            }
                            _ => err!("vector select"),
                        }
                    } else {
                        self.select(&cv, &x, &y, *w)?
                    };
                    set!(*d, r);
                }
                Inst::Br(e) => jump!(e),
                Inst::CondBr { c, t, f } => {
                    let b = match get!(c) {
                        Val::I(k) => k != 0,
                        Val::S(e) => self.branch(e)?,
                        _ => err!("br cond"),
                    };
                    if b {
                        jump!(t)
                    } else {
                        jump!(f)
                    }
                }
                Inst::Switch { v, w, def, cases, map } => {
                    let x = get!(v);
                    let e = match x {
                        Val::I(k) => match map {
                            Some(mp) => mp.get(&k).map(|i| &cases[*i as usize].1).unwrap_or(def),
                            None => cases.iter().find(|(c, _)| *c == k).map(|(_, e)| e).unwrap_or(def),
                        },
                        Val::S(e) => {
                            let sh = self.ar.sh(e) as u64;
                            let hit = cases.iter().position(|(c, _)| *c == sh);
                            // literal for the taken side
                            let lit = self.switch_lit(e, *w, cases, hit);
                            if self.known.get(&lit) != Some(&true) && self.ar.cst(lit).is_none() {
                                let mut alts = vec![];
                                for i in 0..cases.len() {
                                    if Some(i) != hit {
                                        let l = self.switch_lit(e, *w, cases, Some(i));
                                        if let QRes::Sat(a) = self.query(l)? {
                                            alts.push(a);
                                        }
                                    }
                                }
                                if hit.is_some() {
                                    let l = self.switch_lit(e, *w, cases, None);
                                    if let QRes::Sat(a) = self.query(l)? {
                                        alts.push(a);
                                    }
                                }
                                if alts.is_empty() {
                                    self.learn(lit);
                                } else {
                                    let idx = self.decisions;
                                    self.decisions += 1;
                                    if idx >= self.bound {
                                        for a in alts {
                                            self.child(idx, a);
                                        }
                                    }
                                    self.add(lit);
                                    self.known.insert(lit, true);
                                }
                            }
                            match hit {
                                Some(i) => &cases[i].1,
                                None => def,
                            }
                        }
                        _ => err!("switch value"),
                    };
                    jump!(e)
                }
                Inst::Ret(o) => {
                    let v = match o {
                        Some(o) => Some(get!(o)),
                        None => None,
                    };
                    let fr = frames.pop().unwrap();
                    self.mem.sp = fr.sp;
                    regs.truncate(fr.base);
                    match frames.last() {
                        None => {
                            self.steps = steps;
                            return Ok(());
                        }
                        Some(p) => {
                            fr_f = p.f;
                            base = p.base;
                            pc = p.pc as usize;
                            if let Inst::Call { d, cont, .. } = &fr_f.code[pc] {
                                if let (Some(d), Some(v)) = (d, v) {
                                    set!(*d, v);
                                }
                                if let Some(e) = cont {
                                    jump!(e)
                                }
                            } else {
                                unreachable!()
                            }
                        }
                    }
                }
                Inst::Unreachable => {
                    self.steps = steps;
                    err!("unreachable executed")
                }
                Inst::Call { d, rty, callee, args, cont } => {
                    let mut ext: Option<(X, Arc<String>)> = None;
                    let mut target: Option<u32> = None;
                    match callee {
                        Callee::Func(i) => target = Some(*i),
                        Callee::Ext(x, n) => ext = Some((*x, n.clone())),
                        Callee::Ind(o) => {
                            let v = get!(o);
                            let a = self.conc(&v)?;
                            if a >= EXT_BASE && a < GLOB_BASE {
                                let n = m.exts[((a - EXT_BASE) / 16) as usize].clone();
                                ext = Some((classify(&n), n));
                            } else if a >= FN_BASE && a < EXT_BASE && (a - FN_BASE) % 16 == 0 && ((a - FN_BASE) / 16) < m.funcs.len() as u64 {
                                target = Some(((a - FN_BASE) / 16) as u32);
                            } else {
                                err!("call to invalid address {a:#x}");
                            }
                        }
                    }
                    if let Some(i) = target {
                        let slot = &m.funcs[i as usize];
                        if slot.is_panic {
                            self.steps = steps;
                            return Err(Stop::Panic(slot.name.clone()));
                        }
                        let f = m.func(i);
                        if !slot.executed.load(std::sync::atomic::Ordering::Relaxed) {
                            slot.executed.store(true, std::sync::atomic::Ordering::Relaxed);
                            if self.trace_fn {
                                eprintln!("call {}", slot.name);
                            }
                        }
                        let nb = regs.len();
                        regs.resize_with(nb + f.nregs as usize, || Val::I(0));
                        for (k, (o, _)) in args.iter().enumerate() {
                            if k < f.params.len() {
                                let v = get!(o);
                                regs[nb + f.params[k] as usize] = v;
                            }
                        }
                        frames.last_mut().unwrap().pc = pc as u32;
                        if frames.len() > 20000 {
                            err!("call depth");
                        }
                        frames.push(Frame { f, pc: 0, base: nb, sp: self.mem.sp });
                        fr_f = f;
                        base = nb;
                        pc = 0;
                        continue;
                    }
                    let (x, name) = ext.unwrap();
                    let mut av: Vec<Val> = Vec::with_capacity(args.len());
                    for (o, _) in args.iter() {
                        let v = get!(o);
                        av.push(v);
                    }
                    let r = self.external(x, &name, &av, args, rty)?;
                    if let (Some(d), Some(v)) = (d, r) {
                        set!(*d, v);
                    }
                    if let Some(e) = cont {
                        jump!(e)
                    }
                }
                Inst::Extract { d, a, idx } => {
                    let mut v = get!(a);
                    for i in idx.iter() {
                        v = match v {
                            Val::A(x) => x[*i as usize].clone(),
                            _ => err!("extractvalue"),
                        };
                    }
                    set!(*d, v);
                }
                Inst::Insert { d, a, v, idx, ty } => {
                    let mut agg = get!(a);
                    if !matches!(agg, Val::A(_)) {
                        agg = zero_val(ty);
                    }
                    let x = get!(v);
                    fn ins(agg: &mut Val, idx: &[u32], x: Val) {
                        if idx.is_empty() {
                            *agg = x;
                            return;
                        }
                        if let Val::A(v) = agg {
                            let v = Arc::make_mut(v);
                            ins(&mut v[idx[0] as usize], &idx[1..], x);
                        } else {
                            panic!("insertvalue")
                        }
                    }
                    ins(&mut agg, idx, x);
                    set!(*d, agg);
                }
                Inst::InsElem { d, a, v, i } => {
                    let agg = get!(a);
                    let x = get!(v);
                    let k = get!(i);
                    let k = self.conc(&k)? as usize;
                    match agg {
                        Val::A(mut p) => {
                            Arc::make_mut(&mut p)[k] = x;
                            set!(*d, Val::A(p));
                        }
                        _ => err!("insertelement"),
                    }
                }
                Inst::ExtElem { d, a, i } => {
                    let agg = get!(a);
                    let k = get!(i);
                    let k = self.conc(&k)? as usize;
                    match agg {
                        Val::A(p) => {
                            let v = p[k].clone();
                            set!(*d, v);
                        }
                        _ => err!("extractelement"),
                    }
                }
                Inst::Shuffle { d, a, b, mask } => {
                    let (x, y) = (get!(a), get!(b));
                    match (&x, &y) {
                        (Val::A(p), y) => {
                            let n = p.len();
                            let v = mask
                                .iter()
                                .map(|k| {
                                    if *k < 0 {
                                        Val::I(0)
                                    } else if (*k as usize) < n {
                                        p[*k as usize].clone()
                                    } else if let Val::A(q) = y {
                                        q[*k as usize - n].clone()
                                    } else {
                                        Val::I(0)
                                    }
                                })
                                .collect();
                            set!(*d, Val::A(Arc::new(v)));
                        }
                        _ => err!("shufflevector"),
                    }
                }
                Inst::Rmw { d, op, w, p, v } => {
                    let a = get!(p);
                    let a = self.conc(&a)?;
                    let ty = Ty::Int(*w);
                    let old = self.load(a, &ty)?;
                    let x = get!(v);
                    let new = match op.as_str() {
                        "xchg" => x,
                        "add" => self.bin(BinOp::Add, *w, &old, &x)?,
                        "sub" => self.bin(BinOp::Sub, *w, &old, &x)?,
                        "and" => self.bin(BinOp::And, *w, &old, &x)?,
                        "or" => self.bin(BinOp::Or, *w, &old, &x)?,
                        "xor" => self.bin(BinOp::Xor, *w, &old, &x)?,
                        "umax" | "umin" | "max" | "min" => {
                            let pr = match op.as_str() {
                                "umax" => Pred::Ugt,
                                "umin" => Pred::Ult,
                                "max" => Pred::Sgt,
                                _ => Pred::Slt,
                            };
                            let c = self.cmpv(pr, *w, &old, &x);
                            self.select(&c, &old, &x, *w)?
                        }
                        o => err!("atomicrmw {o}"),
                    };
                    self.store(a, &ty, &new)?;
                    set!(*d, old);
                }
                Inst::CmpXchg { d, w, p, c, n } => {
                    let a = get!(p);
                    let a = self.conc(&a)?;
                    let ty = Ty::Int(*w);
                    let old = self.load(a, &ty)?;
                    let (cv, nv) = (get!(c), get!(n));
                    let eq = match self.cmpv(Pred::Eq, *w, &old, &cv) {
                        Val::I(k) => k != 0,
                        Val::S(e) => self.branch(e)?,
                        _ => false,
                    };
                    if eq {
                        self.store(a, &ty, &nv)?;
                    }
                    set!(*d, Val::A(Arc::new(vec![old, Val::I(eq as u64)])));
                }
                Inst::Copy { d, a } => {
                    let v = get!(a);
                    set!(*d, v);
                }
                Inst::Nop => {}
                Inst::Bad(s) => err!("unsupported: {s}"),
            }
            pc += 1;
        }
    }

    fn switch_lit(&mut self, e: E, w: u32, cases: &[(u64, Edge)], hit: Option<usize>) -> E {
        match hit {
            Some(i) => {
                let k = self.ar.k(cases[i].0 as u128, w);
                self.ar.cmp(Pred::Eq, e, k)
            }
            None => {
                let mut acc = self.ar.k(1, 1);
                for (c, _) in cases {
                    let k = self.ar.k(*c as u128, w);
                    let ne = self.ar.cmp(Pred::Ne, e, k);
                    acc = self.ar.bin(BinOp::And, acc, ne);
                }
                acc
            }
        }
    }

    fn bytes(&self, a: u64, n: u64) -> String {
        if self.mem.ok(a, n) {
            String::from_utf8_lossy(&self.mem.buf[a as usize..(a + n) as usize]).into_owned()
        } else {
            String::new()
        }
    }

    fn fresh(&mut self, name: String, bits: u32, n: Option<u64>) -> Val {
        let i = self.ar.vars.len();
        let mut v = self.model.get(i).copied().unwrap_or(0);
        v = mask(v, bits);
        if let Some(n) = n {
            if v >= n as u128 {
                v = 0;
            }
        }
        self.values.push(v);
        let e = self.ar.var(name, bits, v);
        if let Some(n) = n {
            let full = bits < 64 && n == 1u64 << bits;
            if !full {
                let k = self.ar.k(n as u128, bits);
                let c = self.ar.cmp(Pred::Ult, e, k);
                self.add(c);
            }
        }
        Val::S(e)
    }

    fn external(&mut self, x: X, name: &str, a: &[Val], args: &[(Op, Ty)], rty: &Ty) -> R<Option<Val>> {
        let w0 = args.first().map(|t| t.1.bits()).unwrap_or(64);
        macro_rules! cc {
            ($i:expr) => {{
                let v = a[$i].clone();
                self.conc(&v)?
            }};
        }
        macro_rules! chk {
            ($a:expr,$n:expr) => {
                if $n > 0 && !self.mem.ok($a, $n) {
                    err!("{name}: invalid range {:#x}+{}", $a, $n);
                }
            };
        }
        // vector forms of scalar intrinsics
        if let (Some(Val::A(v0)), true) = (a.first(), matches!(x, X::Umin | X::Umax | X::Smin | X::Smax | X::Abs | X::UaddSat | X::UsubSat | X::Ctpop | X::Bswap)) {
            if let Ty::Vec(_, et) = &args[0].1 {
                let et = (**et).clone();
                let mut out = vec![];
                for i in 0..v0.len() {
                    let ai: Vec<Val> = a
                        .iter()
                        .map(|v| match v {
                            Val::A(p) => p[i].clone(),
                            o => o.clone(),
                        })
                        .collect();
                    let ar2: Vec<(Op, Ty)> = args.iter().map(|(o, t)| (o.clone(), if matches!(t, Ty::Vec(..)) { et.clone() } else { t.clone() })).collect();
                    out.push(self.external(x, name, &ai, &ar2, &et)?.unwrap());
                }
                return Ok(Some(Val::A(Arc::new(out))));
            }
        }
        Ok(match x {
            X::Memcpy | X::Memmove => {
                let (d, s, n) = (cc!(0), cc!(1), cc!(2));
                chk!(d, n);
                chk!(s, n);
                if n > 0 {
                    self.mem.copy(d, s, n);
                }
                Some(Val::I(d))
            }
            X::Memset => {
                let (d, n) = (cc!(0), cc!(2));
                chk!(d, n);
                if n > 0 {
                    match &a[1] {
                        Val::S(e) => {
                            let b = self.ar.extract(0, 8, *e);
                            let s = self.ar.sh(b) as u8;
                            for i in 0..n {
                                self.mem.buf[(d + i) as usize] = s;
                                self.mem.set_sym(d + i, Some(b));
                            }
                        }
                        v => {
                            let k = Self::num(v).unwrap() as u8;
                            self.mem.clear_sym(d, n);
                            self.mem.buf[d as usize..(d + n) as usize].fill(k);
                        }
                    }
                }
                Some(Val::I(d))
            }
            X::Bcmp | X::Memcmp => {
                let (p, q, n) = (cc!(0), cc!(1), cc!(2));
                chk!(p, n);
                chk!(q, n);
                if n == 0 {
                    return Ok(Some(Val::I(0)));
                }
                if !(self.mem.any_sym(p, n) || self.mem.any_sym(q, n)) {
                    let (s, t) = (&self.mem.buf[p as usize..(p + n) as usize], &self.mem.buf[q as usize..(q + n) as usize]);
                    let r = match s.cmp(t) {
                        std::cmp::Ordering::Less => 0xffff_ffffu64,
                        std::cmp::Ordering::Equal => 0,
                        std::cmp::Ordering::Greater => 1,
                    };
                    return Ok(Some(Val::I(r)));
                }
                let mut acc = self.ar.k(0, 32);
                let lt = self.ar.k(0xffff_ffff, 32);
                let gt = self.ar.k(1, 32);
                for i in (0..n).rev() {
                    let (s, t) = (self.byte_e(p + i), self.byte_e(q + i));
                    let eq = self.ar.cmp(Pred::Eq, s, t);
                    let d = if x == X::Bcmp {
                        gt
                    } else {
                        let l = self.ar.cmp(Pred::Ult, s, t);
                        self.ar.ite(l, lt, gt)
                    };
                    acc = self.ar.ite(eq, acc, d);
                }
                Some(self.from_e(acc))
            }
            X::Memchr => {
                let (p, c, n) = (cc!(0), cc!(1) as u8, cc!(2));
                chk!(p, n);
                let mut r = 0;
                for i in 0..n {
                    let b = self.byte_e(p + i);
                    let k = self.ar.k(c as u128, 8);
                    let eq = self.ar.cmp(Pred::Eq, b, k);
                    if self.branch(eq)? {
                        r = p + i;
                        break;
                    }
                }
                Some(Val::I(r))
            }
            X::Strlen => {
                let p = cc!(0);
                let mut n = 0;
                loop {
                    if !self.mem.ok(p + n, 1) {
                        err!("strlen");
                    }
                    let b = self.byte_e(p + n);
                    let k = self.ar.k(0, 8);
                    let eq = self.ar.cmp(Pred::Eq, b, k);
                    if self.branch(eq)? {
                        break;
                    }
                    n += 1;
                }
                Some(Val::I(n))
            }
            X::Malloc | X::Calloc | X::AlignedAlloc => {
                let (n, al) = match x {
                    X::Malloc => (cc!(0), 16),
                    X::Calloc => (cc!(0) * cc!(1), 16),
                    _ => (cc!(1), cc!(0)),
                };
                let p = self.mem.alloc(n, al);
                if p == 0 {
                    err!("out of modelled memory");
                }
                if x == X::Calloc {
                    self.mem.clear_sym(p, n);
                    self.mem.buf[p as usize..(p + n) as usize].fill(0);
                }
                Some(Val::I(p))
            }
            X::PosixMemalign => {
                let (o, al, n) = (cc!(0), cc!(1), cc!(2));
                let p = self.mem.alloc(n, al);
                if p == 0 {
                    err!("out of modelled memory");
                }
                self.store(o, &Ty::Ptr, &Val::I(p))?;
                Some(Val::I(0))
            }
            X::Realloc => {
                let (p, n) = (cc!(0), cc!(1));
                let q = self.mem.alloc(n, 16);
                if q == 0 {
                    err!("out of modelled memory");
                }
                if p != 0 {
                    let on = self.mem.size_of(p);
                    self.mem.copy(q, p, on.min(n));
                    self.mem.dealloc(p);
                }
                Some(Val::I(q))
            }
            X::Free => {
                let p = cc!(0);
                self.mem.dealloc(p);
                None
            }
            X::Abort => return Err(Stop::Panic(format!("abort ({name})"))),
            X::Umin | X::Umax | X::Smin | X::Smax => {
                let p = match x {
                    X::Umin => Pred::Ult,
                    X::Umax => Pred::Ugt,
                    X::Smin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.cmpv(p, w0, &a[0], &a[1]);
                Some(self.select(&c, &a[0], &a[1], w0)?)
            }
            X::Abs => {
                let z = Self::mkv(0, w0);
                let c = self.cmpv(Pred::Slt, w0, &a[0], &z);
                let n = self.bin(BinOp::Sub, w0, &z, &a[0])?;
                Some(self.select(&c, &n, &a[0], w0)?)
            }
            X::UaddO | X::UsubO | X::UmulO | X::SaddO | X::SsubO | X::SmulO => {
                let op = match x {
                    X::UaddO | X::SaddO => BinOp::Add,
                    X::UsubO | X::SsubO => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let signed = matches!(x, X::SaddO | X::SsubO | X::SmulO);
                if w0 > 64 {
                    err!("{name} wide");
                }
                let r = self.bin(op, w0, &a[0], &a[1])?;
                if let (Val::I(p), Val::I(q)) = (&a[0], &a[1]) {
                    let o = if signed {
                        let (p, q) = (sext(*p as u128, w0), sext(*q as u128, w0));
                        let t = match op {
                            BinOp::Add => p + q,
                            BinOp::Sub => p - q,
                            _ => p * q,
                        };
                        sext(mask(t as u128, w0), w0) != t
                    } else {
                        let (p, q) = (*p as u128, *q as u128);
                        match op {
                            BinOp::Add => (p + q) >> w0 != 0,
                            BinOp::Sub => p < q,
                            _ => (p * q) >> w0 != 0,
                        }
                    };
                    return Ok(Some(Val::A(Arc::new(vec![r, Val::I(o as u64)]))));
                }
                let (p, q) = (self.to_e(&a[0], w0), self.to_e(&a[1], w0));
                let w2 = w0 * 2;
                let (p2, q2) = if signed { (self.ar.sext(p, w2), self.ar.sext(q, w2)) } else { (self.ar.zext(p, w2), self.ar.zext(q, w2)) };
                let o = if op == BinOp::Sub && !signed {
                    self.ar.cmp(Pred::Ult, p, q)
                } else {
                    let t = self.ar.bin(op, p2, q2);
                    let re = self.to_e(&r, w0);
                    let t2 = if signed { self.ar.sext(re, w2) } else { self.ar.zext(re, w2) };
                    self.ar.cmp(Pred::Ne, t, t2)
                };
                let o = self.from_e(o);
                Some(Val::A(Arc::new(vec![r, o])))
            }
            X::UaddSat | X::UsubSat => {
                let op = if x == X::UaddSat { BinOp::Add } else { BinOp::Sub };
                let r = self.bin(op, w0, &a[0], &a[1])?;
                let (c, k) = if x == X::UaddSat { (self.cmpv(Pred::Ult, w0, &r, &a[0]), Self::mkv(u128::MAX, w0)) } else { (self.cmpv(Pred::Ult, w0, &a[0], &a[1]), Self::mkv(0, w0)) };
                Some(self.select(&c, &k, &r, w0)?)
            }
            X::SaddSat | X::SsubSat => {
                let (p, q) = match (Self::num(&a[0]), Self::num(&a[1])) {
                    (Some(p), Some(q)) => (sext(p, w0), sext(q, w0)),
                    _ => err!("symbolic {name}"),
                };
                let t = if x == X::SaddSat { p + q } else { p - q };
                let mx = (1i128 << (w0 - 1)) - 1;
                let t = t.min(mx).max(-mx - 1);
                Some(Self::mkv(t as u128, w0))
            }
            X::Ctlz | X::Cttz | X::Ctpop => {
                if let Some(v) = Self::num(&a[0]) {
                    let r = match x {
                        X::Ctlz => (v.leading_zeros() - (128 - w0)) as u64,
                        X::Cttz => v.trailing_zeros().min(w0) as u64,
                        _ => v.count_ones() as u64,
                    };
                    Some(Self::mkv(r as u128, w0))
                } else {
                    let e = self.to_e(&a[0], w0);
                    let mut acc = self.ar.k(if x == X::Ctpop { 0 } else { w0 as u128 }, w0);
                    match x {
                        X::Ctpop => {
                            for i in 0..w0 {
                                let b = self.ar.extract(i, 1, e);
                                let z = self.ar.zext(b, w0);
                                acc = self.ar.bin(BinOp::Add, acc, z);
                            }
                        }
                        X::Cttz => {
                            for i in (0..w0).rev() {
                                let b = self.ar.extract(i, 1, e);
                                let k = self.ar.k(i as u128, w0);
                                acc = self.ar.ite(b, k, acc);
                            }
                        }
                        _ => {
                            for i in 0..w0 {
                                let b = self.ar.extract(i, 1, e);
                                let k = self.ar.k((w0 - 1 - i) as u128, w0);
                                acc = self.ar.ite(b, k, acc);
                            }
                        }
                    }
                    Some(self.from_e(acc))
                }
            }
            X::Bswap => {
                let e = self.to_e(&a[0], w0);
                let mut acc: Option<E> = None;
                for i in 0..w0 / 8 {
                    let b = self.ar.extract(8 * i, 8, e);
                    acc = Some(match acc {
                        None => b,
                        Some(y) => self.ar.concat(y, b),
                    });
                }
                Some(self.from_e(acc.unwrap()))
            }
            X::Bitreverse => {
                let e = self.to_e(&a[0], w0);
                let mut acc: Option<E> = None;
                for i in 0..w0 {
                    let b = self.ar.extract(i, 1, e);
                    acc = Some(match acc {
                        None => b,
                        Some(y) => self.ar.concat(y, b),
                    });
                }
                Some(self.from_e(acc.unwrap()))
            }
            X::Fshl | X::Fshr => {
                let s = cc!(2) as u32 % w0;
                let (h, l) = (self.to_e(&a[0], w0), self.to_e(&a[1], w0));
                if w0 > 64 {
                    err!("wide fsh");
                }
                let c = self.ar.concat(h, l);
                let lo = if x == X::Fshl { w0 - s } else { s };
                let r = if x == X::Fshl && s == 0 {
                    h
                } else if x == X::Fshr && s == 0 {
                    l
                } else {
                    self.ar.extract(lo, w0, c)
                };
                Some(self.from_e(r))
            }
            X::Ucmp | X::Scmp => {
                let rw = rty.bits();
                let (pl, pg) = if x == X::Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.cmpv(pl, w0, &a[0], &a[1]);
                let g = self.cmpv(pg, w0, &a[0], &a[1]);
                let z = Self::mkv(0, rw);
                let one = Self::mkv(1, rw);
                let m1 = Self::mkv(u128::MAX, rw);
                let r = self.select(&g, &one, &z, rw)?;
                Some(self.select(&l, &m1, &r, rw)?)
            }
            X::IsConstant => Some(Val::I(0)),
            X::Expect => Some(a[0].clone()),
            X::ReduceOr | X::ReduceAnd | X::ReduceAdd => {
                let ew = rty.bits();
                let op = match x {
                    X::ReduceOr => BinOp::Or,
                    X::ReduceAnd => BinOp::And,
                    _ => BinOp::Add,
                };
                if let Val::A(v) = &a[0] {
                    let mut acc = v[0].clone();
                    for y in v.iter().skip(1) {
                        acc = self.bin(op, ew, &acc, y)?;
                    }
                    Some(acc)
                } else {
                    err!("reduce")
                }
            }
            X::Zero => Some(Val::I(0)),
            X::One => Some(Val::I(1)),
            X::MinusOne => Some(Val::I(mask(u128::MAX, rty.bits().max(1)) as u64)),
            X::Write => {
                if name == "write" {
                    let (p, n) = (cc!(1), cc!(2));
                    let s = self.bytes(p, n);
                    self.notes.push(s);
                    Some(Val::I(n))
                } else {
                    err!("writev")
                }
            }
            X::Errno => Some(Val::I(MEM_SIZE - 64)),
            X::Sysconf => Some(Val::I(4096)),
            X::KeyCreate => {
                let p = cc!(0);
                self.keys.push(0);
                let k = self.keys.len() as u64;
                self.store(p, &Ty::Int(32), &Val::I(k))?;
                Some(Val::I(0))
            }
            X::KeyGet => {
                let k = cc!(0) as usize;
                Some(Val::I(if k >= 1 && k <= self.keys.len() { self.keys[k - 1] } else { 0 }))
            }
            X::KeySet => {
                let (k, v) = (cc!(0) as usize, cc!(1));
                if k >= 1 && k <= self.keys.len() {
                    self.keys[k - 1] = v;
                }
                Some(Val::I(0))
            }
            X::Getrandom => {
                let (p, n) = (cc!(0), cc!(1));
                chk!(p, n);
                self.mem.clear_sym(p, n);
                self.mem.buf[p as usize..(p + n) as usize].fill(0);
                Some(Val::I(n))
            }
            X::SymVar => {
                let (b, p, n) = (cc!(0) as u32, cc!(1), cc!(2));
                let nm = self.bytes(p, n);
                let v = self.fresh(nm, b, None);
                let e = self.to_e(&v, b);
                let z = self.ar.zext(e, 64);
                Some(self.from_e(z))
            }
            X::SymChoice => {
                let (k, p, n) = (cc!(0), cc!(1), cc!(2));
                let nm = self.bytes(p, n);
                let bits = if k <= 256 { 8 } else { 32 };
                let v = self.fresh(nm, bits, Some(k));
                let e = self.to_e(&v, bits);
                let z = self.ar.zext(e, 64);
                Some(self.from_e(z))
            }
            X::SymConcretize => Some(Val::I(cc!(0))),
            X::SymAssume => {
                let e = self.to_e(&a[0], 1);
                self.assume(e)?;
                None
            }
            X::SymCheck => {
                let id = cc!(1) as u32;
                let c = self.to_e(&a[0], 1);
                self.reached.insert(id);
                match self.ar.cst(c) {
                    Some(1) => self.checks_const += 1,
                    Some(_) => return Err(Stop::Fail(id, "assertion is false on this path".into())),
                    None => {
                        let n = self.ar.not(c);
                        match self.query(n)? {
                            QRes::Unsat => self.checks_smt += 1,
                            QRes::Sat(asg) => {
                                let mut m = self.values.clone();
                                for (v, x) in asg {
                                    m[v as usize] = x;
                                }
                                self.violations.push((format!("check {id}"), m));
                                if self.ar.sh(c) == 0 {
                                    return Err(Stop::Fail(id, "assertion violated under the path model".into()));
                                }
                                self.add(c);
                            }
                            _ => unreachable!(),
                        }
                    }
                }
                None
            }
            X::SymReach => {
                let id = cc!(0) as u32;
                self.reached.insert(id);
                None
            }
            X::SymNote => {
                let (p, n) = (cc!(0), cc!(1));
                let s = self.bytes(p, n);
                self.notes.push(s);
                None
            }
            X::SymObserve => {
                let v = match &a[0] {
                    Val::S(e) => self.ar.sh(*e) as u64,
                    v => Self::num(v).unwrap_or(0) as u64,
                };
                self.observed = (self.observed ^ v).wrapping_mul(0x100000001b3).rotate_left(17);
                None
            }
            X::SymFail => {
                let (p, n) = (cc!(0), cc!(1));
                let s = self.bytes(p, n);
                return Err(Stop::Fail(u32::MAX, s));
            }
            X::Unknown => err!("external function {name}"),
        })
    }
}
