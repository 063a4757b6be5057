//! SMT solver process (z3 through a pipe), query cache.
use crate::expr::*;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum QRes {
    Unsat,
    Sat(Vec<(u32, u128)>),
    Unknown(String),
}

#[derive(Default)]
pub struct Shared {
    cache: Vec<Mutex<HashMap<(u128, u128), QRes>>>,
    pub queries: AtomicU64,
    pub cache_hits: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub nanos: AtomicU64,
    pub max_nanos: AtomicU64,
    pub dump: Option<Mutex<std::fs::File>>,
    pub dump_left: AtomicU64,
}

impl Shared {
    pub fn new() -> Self {
        Shared { cache: (0..64).map(|_| Mutex::new(HashMap::new())).collect(), ..Default::default() }
    }
}

pub struct Solver {
    cmd: Vec<String>,
    child: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    timeout_ms: u64,
    n: u64,
}

impl Drop for Solver {
    fn drop(&mut self) {
        if let Some((mut c, i, _)) = self.child.take() {
            drop(i);
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}

impl Solver {
    pub fn new(timeout_ms: u64) -> Self {
        let cmd = std::env::var("LLSYM_SOLVER").unwrap_or_else(|_| "z3 -in".into()).split_whitespace().map(|s| s.to_string()).collect();
        Solver { cmd, child: None, timeout_ms, n: 0 }
    }
    fn start(&mut self) {
        let mut c = Command::new(&self.cmd[0]).args(&self.cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("start solver");
        let mut i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        let _ = writeln!(i, "(set-option :print-success false)(set-option :produce-models true)(set-option :timeout {})(set-logic QF_BV)", self.timeout_ms);
        self.child = Some((c, i, o));
    }
    /// conjunction of width-1 expressions
    pub fn check(&mut self, ar: &Arena, cons: &[E], key: (u128, u128), sh: &Shared) -> QRes {
        let shard = &sh.cache[(key.0 ^ key.1) as usize & 63];
        if let Some(r) = shard.lock().unwrap().get(&key) {
            sh.cache_hits.fetch_add(1, Ordering::Relaxed);
            return r.clone();
        }
        let t0 = Instant::now();
        let r = self.ask(ar, cons, sh);
        let dt = t0.elapsed().as_nanos() as u64;
        sh.queries.fetch_add(1, Ordering::Relaxed);
        sh.nanos.fetch_add(dt, Ordering::Relaxed);
        sh.max_nanos.fetch_max(dt, Ordering::Relaxed);
        match &r {
            QRes::Sat(_) => {
                sh.sat.fetch_add(1, Ordering::Relaxed);
            }
            QRes::Unsat => {
                sh.unsat.fetch_add(1, Ordering::Relaxed);
            }
            _ => {}
        }
        shard.lock().unwrap().insert(key, r.clone());
        r
    }
    fn ask(&mut self, ar: &Arena, cons: &[E], sh: &Shared) -> QRes {
        let mut q = String::from("(push 1)\n");
        let vars = ar.smt(cons, &mut q);
        for c in cons {
            q.push_str(&format!("(assert (= e{} #b1))\n", c));
        }
        q.push_str("(check-sat)\n");
        if self.n > 4000 {
            self.n = 0;
            if let Some((mut c, i, _)) = self.child.take() {
                drop(i);
                let _ = c.kill();
                let _ = c.wait();
            }
        }
        self.n += 1;
        if self.child.is_none() {
            self.start();
        }
        let (_, i, o) = self.child.as_mut().unwrap();
        if i.write_all(q.as_bytes()).is_err() || i.flush().is_err() {
            return QRes::Unknown("solver pipe".into());
        }
        let mut line = String::new();
        if o.read_line(&mut line).unwrap_or(0) == 0 {
            return QRes::Unknown("solver eof".into());
        }
        let ans = line.trim().to_string();
        if let Some(d) = &sh.dump {
            if sh.dump_left.load(Ordering::Relaxed) > 0 {
                sh.dump_left.fetch_sub(1, Ordering::Relaxed);
                let mut f = d.lock().unwrap();
                let _ = writeln!(f, "{}(pop 1)\n; expect {}", q, ans);
            }
        }
        let r = match ans.as_str() {
            "unsat" => QRes::Unsat,
            "sat" => {
                if vars.is_empty() {
                    QRes::Sat(vec![])
                } else {
                    let mut g = String::from("(get-value (");
                    for v in &vars {
                        g.push_str(&format!("v{} ", v));
                    }
                    g.push_str("))\n");
                    let _ = i.write_all(g.as_bytes());
                    let _ = i.flush();
                    let mut buf = String::new();
                    let mut depth = 0i64;
                    loop {
                        let mut l = String::new();
                        if o.read_line(&mut l).unwrap_or(0) == 0 {
                            return QRes::Unknown("solver eof".into());
                        }
                        depth += l.bytes().map(|b| (b == b'(') as i64 - (b == b')') as i64).sum::<i64>();
                        buf.push_str(&l);
                        if depth <= 0 {
                            break;
                        }
                    }
                    let toks: Vec<String> = buf.replace('(', " ").replace(')', " ").split_whitespace().map(|s| s.to_string()).collect();
                    let mut m = vec![];
                    let mut k = 0;
                    let mut bad = None;
                    while k + 1 < toks.len() {
                        let v: Option<u32> = toks[k].strip_prefix('v').and_then(|s| s.parse().ok());
                        let x = if let Some(h) = toks[k + 1].strip_prefix("#x") {
                            u128::from_str_radix(h, 16).ok()
                        } else if let Some(h) = toks[k + 1].strip_prefix("#b") {
                            u128::from_str_radix(h, 2).ok()
                        } else {
                            None
                        };
                        match (v, x) {
                            (Some(v), Some(x)) => m.push((v, x)),
                            _ => {
                                bad = Some(buf.clone());
                                break;
                            }
                        }
                        k += 2;
                    }
                    match bad {
                        Some(b) => QRes::Unknown(format!("bad model: {b}")),
                        None => QRes::Sat(m),
                    }
                }
            }
            s => QRes::Unknown(format!("solver said {s}")),
        };
        if let QRes::Unknown(_) = r {
            // restart for a clean state
            if let Some((mut c, i, _)) = self.child.take() {
                drop(i);
                let _ = c.kill();
                let _ = c.wait();
            }
            return r;
        }
        let (_, i, _) = self.child.as_mut().unwrap();
        let _ = i.write_all(b"(pop 1)\n");
        r
    }
}
