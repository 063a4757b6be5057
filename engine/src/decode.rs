//! Decode one LLVM function body into the executable form.
use crate::ir::*;
use std::collections::HashMap;
use std::sync::Arc;

struct D<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
}

const VAL_WORDS: &[&str] = &[
    "null", "true", "false", "undef", "poison", "zeroinitializer", "none", "getelementptr", "inttoptr", "ptrtoint", "bitcast", "trunc", "add", "sub", "xor", "mul", "splat", "blockaddress",
];

impl<'m> D<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn val(&mut self, p: &mut P, ty: &Ty) -> Op {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            return Op::R(self.reg(&n));
        }
        match self.m.const_val(p, ty) {
            Val::I(v) => Op::C(v),
            v => Op::K(Arc::new(v)),
        }
    }
    fn tyval(&mut self, p: &mut P) -> (Ty, Op) {
        let t = p.ty(&self.m.types);
        let v = self.val(p, &t);
        (t, v)
    }
    fn label(&mut self, p: &mut P) -> String {
        assert!(p.eat_word("label"), "label");
        p.expect(b'%');
        p.name()
    }
    fn is_type_start(p: &mut P) -> bool {
        let c = p.peek();
        if matches!(c, b'{' | b'[' | b'<' | b'%') {
            return true;
        }
        let w = p.peek_word();
        matches!(w, "void" | "ptr" | "float" | "double" | "label" | "metadata") || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()))
    }
    fn skip_attrs_before_type(p: &mut P) {
        while !Self::is_type_start(p) {
            let w = p.word();
            if w.is_empty() {
                panic!("attr parse: {}", String::from_utf8_lossy(&p.s[p.i..(p.i + 60).min(p.s.len())]));
            }
            if w == "align" || w == "cc" {
                if p.peek().is_ascii_digit() {
                    p.word();
                    continue;
                }
            }
            if p.i < p.s.len() && p.s[p.i] == b'(' {
                p.skip_parens();
            }
        }
    }
    fn skip_attrs_before_val(p: &mut P) {
        loop {
            let c = p.peek();
            if matches!(c, b'%' | b'@' | b'{' | b'<' | b'[' | b')' | b',' | b'"' | b'!') {
                return;
            }
            let w = p.peek_word();
            if w.is_empty() || VAL_WORDS.contains(&w) || w.as_bytes()[0].is_ascii_digit() || w.as_bytes()[0] == b'-' || (w == "c" && p.s[p.i + 1] == b'"') {
                return;
            }
            p.word();
            if w == "align" && p.peek().is_ascii_digit() {
                p.word();
                continue;
            }
            if p.i < p.s.len() && p.s[p.i] == b'(' {
                p.skip_parens();
            }
        }
    }
}

fn is_ignored(n: &str) -> bool {
    n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n == "llvm.assume" || n.starts_with("llvm.x86.sse2.pause") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.invariant") || n.starts_with("llvm.donothing")
}

/// Edges are created with pc = block index; patched later.
pub fn decode(m: &Module, text: &str, fname: &str) -> Func {
    let mut d = D { m, regs: HashMap::new() };
    let eol = text.find('\n').unwrap();
    let head = &text[..eol];
    // params
    let at = head.find('@').unwrap();
    let mut p = P::new(head);
    p.i = at + 1;
    p.name();
    p.expect(b'(');
    let mut params = vec![];
    let mut unnamed = 0;
    while !p.eat(b')') {
        if p.peek() == b'.' {
            p.word();
            continue;
        }
        let _t = p.ty(&m.types);
        D::skip_attrs_before_val(&mut p);
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            if n.bytes().all(|b| b.is_ascii_digit()) {
                unnamed += 1;
            }
            params.push(d.reg(&n));
        } else {
            params.push(d.reg(&unnamed.to_string()));
            unnamed += 1;
        }
        p.eat(b',');
    }
    // logical lines
    let body = &text[eol + 1..];
    let mut lines: Vec<String> = vec![];
    let mut it = body.lines().peekable();
    while let Some(l) = it.next() {
        let t = l.trim_start();
        if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg") || t == "}" {
            continue;
        }
        let mut cur = l.to_string();
        if l.starts_with(' ') {
            let stripped = t;
            if stripped.starts_with("switch ") {
                if !l.trim_end().contains(']') {
                    while let Some(n) = it.next() {
                        cur.push(' ');
                        cur.push_str(n.trim());
                        if n.trim_start().starts_with(']') {
                            break;
                        }
                    }
                }
            } else if stripped.starts_with("invoke ") || stripped.contains(" = invoke ") {
                if !cur.contains("unwind label") {
                    if let Some(n) = it.next() {
                        cur.push(' ');
                        cur.push_str(n.trim());
                    }
                }
            } else if stripped.contains("landingpad ") {
                while let Some(n) = it.peek() {
                    let s = n.trim_start();
                    if s.starts_with("cleanup") || s.starts_with("catch ") || s.starts_with("filter ") {
                        it.next();
                    } else {
                        break;
                    }
                }
            }
        }
        lines.push(cur);
    }
    let mut block_idx: HashMap<String, u32> = HashMap::new();
    let mut block_start: Vec<u32> = vec![];
    let mut phis: Vec<Vec<(u32, Vec<(Op, String)>)>> = vec![];
    let mut code: Vec<Inst> = vec![];
    let mut inst_block: Vec<u32> = vec![];
    let mut cur: i64 = -1;
    // pre-scan labels
    {
        let mut first = true;
        let mut k = 0u32;
        for l in &lines {
            if !l.starts_with(' ') {
                let mut p = P::new(l);
                let n = p.name();
                block_idx.insert(n, k);
                k += 1;
            } else if first {
                block_idx.insert(unnamed.to_string(), k);
                k += 1;
            }
            first = false;
        }
    }
    for l in &lines {
        if !l.starts_with(' ') {
            cur += 1;
            block_start.push(code.len() as u32);
            phis.push(vec![]);
            continue;
        }
        if cur < 0 {
            cur = 0;
            block_start.push(0);
            phis.push(vec![]);
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| inst(&mut d, l.trim_start(), &block_idx)));
        match r {
            Ok(Parsed::Inst(Inst::Nop)) => {}
            Ok(Parsed::Inst(i)) => {
                code.push(i);
                inst_block.push(cur as u32);
            }
            Ok(Parsed::Phi(dst, v)) => phis[cur as usize].push((dst, v)),
            Err(e) => {
                let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                code.push(Inst::Bad(Arc::new(format!("{msg} in {} of {fname}", &l[..l.len().min(200)]))));
                inst_block.push(cur as u32);
            }
        }
    }
    // patch edges
    let names: Vec<String> = {
        let mut v = vec![String::new(); block_idx.len()];
        for (n, i) in &block_idx {
            v[*i as usize] = n.clone();
        }
        v
    };
    let patch = |e: &mut Edge, from: u32| {
        let t = e.pc as usize;
        let mut mv = vec![];
        for (dst, inc) in &phis[t] {
            let fname = &names[from as usize];
            let (op, _) = inc.iter().find(|(_, n)| n == fname).unwrap_or_else(|| panic!("phi pred"));
            mv.push((*dst, op.clone()));
        }
        e.pc = block_start[t];
        e.moves = mv.into_boxed_slice();
    };
    for (i, ins) in code.iter_mut().enumerate() {
        let b = inst_block[i];
        match ins {
            Inst::Br(e) => patch(e, b),
            Inst::CondBr { t, f, .. } => {
                patch(t, b);
                patch(f, b);
            }
            Inst::Switch { def, cases, .. } => {
                patch(def, b);
                for (_, e) in cases.iter_mut() {
                    patch(e, b);
                }
            }
            Inst::Call { cont: Some(e), .. } => patch(e, b),
            _ => {}
        }
    }
    m.funcs[match m.names[fname] {
        GRef::Func(i) => i as usize,
        _ => unreachable!(),
    }]
    .n_inst
    .store(code.len() as u64, std::sync::atomic::Ordering::Relaxed);
    Func { name: fname.to_string(), nregs: d.regs.len() as u32, params, code }
}

enum Parsed {
    Inst(Inst),
    Phi(u32, Vec<(Op, String)>),
}

fn scal(t: &Ty) -> (u32, u32) {
    match t {
        Ty::Vec(n, e) => (e.bits(), *n),
        _ => (t.bits(), 0),
    }
}

fn inst(d: &mut D, l: &str, bi: &HashMap<String, u32>) -> Parsed {
    let mut p = P::new(l);
    let mut dst = None;
    if p.peek() == b'%' {
        p.i += 1;
        let n = p.name();
        dst = Some(d.reg(&n));
        p.expect(b'=');
    }
    let edge = |n: String| Edge { pc: *bi.get(&n).unwrap_or_else(|| panic!("label {n}")), moves: Box::new([]) };
    let mut op = p.word();
    if op == "tail" || op == "musttail" || op == "notail" {
        op = p.word();
    }
    let types = &d.m.types;
    macro_rules! flags {
        ($($f:literal),*) => { loop { let w = p.peek_word(); if $(w == $f)||* { p.word(); } else { break; } } };
    }
    let r = match op {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            flags!("nuw", "nsw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc");
            let t = p.ty(types);
            let a = d.val(&mut p, &t);
            p.expect(b',');
            let b = d.val(&mut p, &t);
            let (w, n) = scal(&t);
            let o = match op {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                "fadd" => BinOp::FAdd,
                "fsub" => BinOp::FSub,
                "fmul" => BinOp::FMul,
                "fdiv" => BinOp::FDiv,
                _ => BinOp::FRem,
            };
            Inst::Bin { op: o, w, n, d: dst.unwrap(), a, b }
        }
        "fneg" => {
            flags!("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc");
            let (t, a) = d.tyval(&mut p);
            Inst::FNeg { dbl: t == Ty::Double, d: dst.unwrap(), a }
        }
        "icmp" => {
            flags!("samesign");
            let pw = p.word();
            let pr = match pw {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                _ => panic!("icmp {pw}"),
            };
            let t = p.ty(types);
            let a = d.val(&mut p, &t);
            p.expect(b',');
            let b = d.val(&mut p, &t);
            let (w, n) = scal(&t);
            Inst::Cmp { p: pr, w, n, d: dst.unwrap(), a, b }
        }
        "fcmp" => {
            flags!("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc");
            let pw = p.word();
            let k = match pw {
                "oeq" => 0,
                "ogt" => 1,
                "oge" => 2,
                "olt" => 3,
                "ole" => 4,
                "one" => 5,
                "ord" => 6,
                "ueq" => 7,
                "ugt" => 8,
                "uge" => 9,
                "ult" => 10,
                "ule" => 11,
                "une" => 12,
                "uno" => 13,
                _ => panic!("fcmp {pw}"),
            };
            let t = p.ty(types);
            let a = d.val(&mut p, &t);
            p.expect(b',');
            let b = d.val(&mut p, &t);
            Inst::FCmp { p: k, dbl: t == Ty::Double, d: dst.unwrap(), a, b }
        }
        "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "addrspacecast" => {
            flags!("nuw", "nsw", "nneg");
            let (from, a) = d.tyval(&mut p);
            assert!(p.eat_word("to"));
            let to = p.ty(types);
            let o = match op {
                "trunc" => CastOp::Trunc,
                "zext" => CastOp::Zext,
                "sext" => CastOp::Sext,
                "bitcast" | "addrspacecast" => CastOp::Bitcast,
                "ptrtoint" | "inttoptr" => {
                    if to.bits() > from.bits() {
                        CastOp::Zext
                    } else {
                        CastOp::Trunc
                    }
                }
                "uitofp" => CastOp::UiToFp,
                "sitofp" => CastOp::SiToFp,
                "fptoui" => CastOp::FpToUi,
                "fptosi" => CastOp::FpToSi,
                "fpext" => CastOp::FpExt,
                _ => CastOp::FpTrunc,
            };
            if from.bits() == to.bits() && matches!(o, CastOp::Trunc | CastOp::Zext) {
                Inst::Copy { d: dst.unwrap(), a }
            } else {
                Inst::Cast { op: o, from, to, d: dst.unwrap(), a }
            }
        }
        "load" => {
            flags!("atomic", "volatile");
            let t = p.ty(types);
            p.expect(b',');
            let (_, a) = d.tyval(&mut p);
            Inst::Load { d: dst.unwrap(), ty: t, p: a }
        }
        "store" => {
            flags!("atomic", "volatile");
            let (t, v) = d.tyval(&mut p);
            p.expect(b',');
            let (_, a) = d.tyval(&mut p);
            Inst::Store { ty: t, v, p: a }
        }
        "getelementptr" => {
            flags!("inbounds", "nuw", "nusw");
            let mut t = p.ty(types);
            p.expect(b',');
            let (_, base) = d.tyval(&mut p);
            let mut off = 0i64;
            let mut terms = vec![];
            let mut first = true;
            while p.peek() == b',' {
                p.i += 1;
                if p.peek() == b'!' {
                    break;
                }
                let (it, iv) = d.tyval(&mut p);
                let (scale, next): (Option<i64>, Option<Ty>) = if first {
                    first = false;
                    (Some(t.size() as i64), None)
                } else {
                    match &t {
                        Ty::Arr(_, e) => (Some(e.size() as i64), Some((**e).clone())),
                        Ty::Vec(_, e) => (Some(e.size() as i64), Some((**e).clone())),
                        Ty::Struct(..) => {
                            let k = match iv {
                                Op::C(k) => k as usize,
                                _ => panic!("gep struct idx"),
                            };
                            let (fo, ft) = t.field(k);
                            off += fo as i64;
                            t = ft;
                            continue;
                        }
                        _ => panic!("gep into scalar"),
                    }
                };
                let sc = scale.unwrap();
                match iv {
                    Op::C(k) => off = off.wrapping_add((sext(k as u128, it.bits()) as i64).wrapping_mul(sc)),
                    o => terms.push((o, it.bits(), sc)),
                }
                if let Some(n) = next {
                    t = n;
                }
            }
            Inst::Gep { d: dst.unwrap(), base, off, terms: terms.into_boxed_slice() }
        }
        "alloca" => {
            flags!("inalloca");
            let t = p.ty(types);
            let mut n = Op::C(1);
            let mut al = t.align();
            while p.eat(b',') {
                if p.peek_word() == "align" {
                    p.word();
                    al = p.word().parse().unwrap();
                } else if p.peek() == b'!' {
                    break;
                } else {
                    n = d.tyval(&mut p).1;
                }
            }
            Inst::Alloca { d: dst.unwrap(), size: t.size(), align: al.max(1), n }
        }
        "select" => {
            flags!("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc");
            let (ct, c) = d.tyval(&mut p);
            p.expect(b',');
            let (t, a) = d.tyval(&mut p);
            p.expect(b',');
            let (_, b) = d.tyval(&mut p);
            let w = match &t {
                Ty::Vec(_, e) => e.bits(),
                _ => t.bits(),
            };
            Inst::Select { d: dst.unwrap(), c, a, b, vec: matches!(ct, Ty::Vec(..)), w }
        }
        "br" => {
            if p.peek_word() == "label" {
                let n = d.label(&mut p);
                Inst::Br(edge(n))
            } else {
                let (_, c) = d.tyval(&mut p);
                p.expect(b',');
                let a = d.label(&mut p);
                p.expect(b',');
                let b = d.label(&mut p);
                Inst::CondBr { c, t: edge(a), f: edge(b) }
            }
        }
        "switch" => {
            let (t, v) = d.tyval(&mut p);
            p.expect(b',');
            let def = edge(d.label(&mut p));
            p.expect(b'[');
            let mut cases = vec![];
            while !p.eat(b']') {
                let t = p.ty(types);
                let k = d.m.scalar_const(&mut p, &t) as u64;
                p.expect(b',');
                let e = edge(d.label(&mut p));
                cases.push((k, e));
            }
            let map = if cases.len() > 6 { Some(Arc::new(cases.iter().enumerate().map(|(i, (k, _))| (*k, i as u32)).collect())) } else { None };
            Inst::Switch { v, w: t.bits(), def, cases: cases.into_boxed_slice(), map }
        }
        "ret" => {
            if p.peek_word() == "void" {
                Inst::Ret(None)
            } else {
                let (_, v) = d.tyval(&mut p);
                Inst::Ret(Some(v))
            }
        }
        "unreachable" | "landingpad" | "resume" | "cleanupret" | "catchret" => Inst::Unreachable,
        "fence" => Inst::Nop,
        "freeze" => {
            let (_, a) = d.tyval(&mut p);
            Inst::Copy { d: dst.unwrap(), a }
        }
        "phi" => {
            flags!("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc");
            let t = p.ty(types);
            let mut v = vec![];
            loop {
                p.expect(b'[');
                let o = d.val(&mut p, &t);
                p.expect(b',');
                p.expect(b'%');
                let n = p.name();
                p.expect(b']');
                v.push((o, n));
                if p.peek() == b',' {
                    p.i += 1;
                    if p.peek() == b'!' {
                        break;
                    }
                } else {
                    break;
                }
            }
            return Parsed::Phi(dst.unwrap(), v);
        }
        "extractvalue" => {
            let (_, a) = d.tyval(&mut p);
            let mut idx = vec![];
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                idx.push(p.word().parse().unwrap());
            }
            Inst::Extract { d: dst.unwrap(), a, idx: idx.into() }
        }
        "insertvalue" => {
            let (t, a) = d.tyval(&mut p);
            p.expect(b',');
            let (_, v) = d.tyval(&mut p);
            let mut idx = vec![];
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                idx.push(p.word().parse().unwrap());
            }
            Inst::Insert { d: dst.unwrap(), a, v, idx: idx.into(), ty: t }
        }
        "insertelement" => {
            let (_, a) = d.tyval(&mut p);
            p.expect(b',');
            let (_, v) = d.tyval(&mut p);
            p.expect(b',');
            let (_, i) = d.tyval(&mut p);
            Inst::InsElem { d: dst.unwrap(), a, v, i }
        }
        "extractelement" => {
            let (_, a) = d.tyval(&mut p);
            p.expect(b',');
            let (_, i) = d.tyval(&mut p);
            Inst::ExtElem { d: dst.unwrap(), a, i }
        }
        "shufflevector" => {
            let (_, a) = d.tyval(&mut p);
            p.expect(b',');
            let (_, b) = d.tyval(&mut p);
            p.expect(b',');
            let mt = p.ty(types);
            let mask = match p.peek() {
                b'<' => {
                    p.i += 1;
                    let mut v = vec![];
                    while !p.eat(b'>') {
                        p.ty(types);
                        let w = p.word();
                        v.push(if w == "undef" || w == "poison" { -1 } else { w.parse().unwrap() });
                        p.eat(b',');
                    }
                    v
                }
                _ => {
                    p.word();
                    vec![0; mt.count()]
                }
            };
            Inst::Shuffle { d: dst.unwrap(), a, b, mask: mask.into() }
        }
        "atomicrmw" => {
            flags!("volatile");
            let o = p.word().to_string();
            let (_, a) = d.tyval(&mut p);
            p.expect(b',');
            let (t, v) = d.tyval(&mut p);
            Inst::Rmw { d: dst.unwrap_or_else(|| d.reg("__rmw")), op: Arc::new(o), w: t.bits(), p: a, v }
        }
        "cmpxchg" => {
            flags!("weak", "volatile");
            let (_, a) = d.tyval(&mut p);
            p.expect(b',');
            let (t, c) = d.tyval(&mut p);
            p.expect(b',');
            let (_, n) = d.tyval(&mut p);
            Inst::CmpXchg { d: dst.unwrap_or_else(|| d.reg("__cx")), w: t.bits(), p: a, c, n }
        }
        "call" | "invoke" => {
            D::skip_attrs_before_type(&mut p);
            let rty = p.ty(types);
            let rty = match rty {
                Ty::Func(t) => (*t).clone(),
                t => t,
            };
            let callee;
            match p.peek() {
                b'@' => {
                    p.i += 1;
                    let n = p.name();
                    if is_ignored(&n) {
                        return Parsed::Inst(Inst::Nop);
                    }
                    callee = match d.m.names.get(&n) {
                        Some(GRef::Func(i)) => {
                            if n.starts_with("__sym_") {
                                Callee::Ext(crate::ext::classify(&n), Arc::new(n))
                            } else {
                                Callee::Func(*i)
                            }
                        }
                        _ => Callee::Ext(crate::ext::classify(&n), Arc::new(n)),
                    };
                }
                b'%' => {
                    p.i += 1;
                    let n = p.name();
                    callee = Callee::Ind(Op::R(d.reg(&n)));
                }
                _ => {
                    let w = p.peek_word();
                    if w == "asm" {
                        p.word();
                        flags!("sideeffect", "alignstack", "inteldialect", "unwind");
                        let body = p.quoted();
                        if body.is_empty() {
                            return Parsed::Inst(Inst::Nop);
                        }
                        return Parsed::Inst(Inst::Bad(Arc::new(format!("inline asm {}", String::from_utf8_lossy(&body)))));
                    }
                    let v = d.m.scalar_const(&mut p, &Ty::Ptr);
                    callee = Callee::Ind(Op::C(v as u64));
                }
            }
            p.expect(b'(');
            let mut args = vec![];
            while !p.eat(b')') {
                let t = p.ty(types);
                if t == Ty::Meta {
                    // skip to matching
                    while !matches!(p.peek(), b',' | b')') {
                        p.i += 1;
                    }
                    p.eat(b',');
                    continue;
                }
                D::skip_attrs_before_val(&mut p);
                let v = d.val(&mut p, &t);
                args.push((v, t));
                p.eat(b',');
            }
            let cont = if op == "invoke" {
                let k = l.rfind("to label %").expect("invoke cont");
                let mut q = P::new(l);
                q.i = k + "to label %".len();
                Some(edge(q.name()))
            } else {
                None
            };
            Inst::Call { d: dst, rty, callee, args: args.into(), cont }
        }
        _ => panic!("opcode {op}"),
    };
    Parsed::Inst(r)
}
