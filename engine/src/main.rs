//! llsym: bounded symbolic execution of rustc-emitted LLVM IR.
//!
//!   llsym run --ll FILE --entry NAME --out RESULT.json [--threads N]
//!         [--time SECS] [--max-paths N] [--max-steps N] [--solver-timeout MS]
mod decode;
mod expr;
mod ext;
mod interp;
mod ir;
mod solver;

use interp::{Item, Stop, Vm};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Default)]
struct Tot {
    paths: u64,
    completed: u64,
    assume_cut: u64,
    decisions: u64,
    max_decisions: u64,
    steps: u64,
    max_steps: u64,
    checks_const: u64,
    checks_smt: u64,
    max_vars: u64,
    reached: BTreeSet<u32>,
    violations: Vec<(String, Vec<u128>, Vec<String>)>,
    errors: Vec<String>,
    traces: Vec<(Vec<u128>, u64)>,
    var_names: BTreeMap<String, u64>,
    samples: Vec<String>,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(real_main);
    match r {
        Ok(c) => std::process::exit(c),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            eprintln!("llsym: internal error: {m}");
            std::process::exit(3);
        }
    }
}

fn real_main() -> i32 {
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut threads = 8usize;
    let mut time = 600u64;
    let mut max_paths = u64::MAX;
    let mut max_steps = 2_000_000_000u64;
    let mut st = 20_000u64;
    let mut traces_out = String::new();
    let mut trace = false;
    let mut dump = String::new();
    let mut max_viol = 3usize;
    let mut concrete: Option<Vec<u128>> = None;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("value");
        match a.as_str() {
            "--ll" => ll = v(),
            "--entry" => entry = v(),
            "--out" => out = v(),
            "--threads" => threads = v().parse().unwrap(),
            "--time" => time = v().parse().unwrap(),
            "--max-paths" => max_paths = v().parse().unwrap(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--solver-timeout" => st = v().parse().unwrap(),
            "--traces" => traces_out = v(),
            "--dump-queries" => dump = v(),
            "--max-violations" => max_viol = v().parse().unwrap(),
            "--trace-fn" => trace = true,
            "--concrete" => concrete = Some(v().split_whitespace().map(|s| s.parse().unwrap()).collect()),
            _ => panic!("unknown argument {a}"),
        }
    }
    let t0 = Instant::now();
    let m = ir::Module::load(&ll);
    let load_s = t0.elapsed().as_secs_f64();
    let ent = match m.names.get(&entry) {
        Some(ir::GRef::Func(i)) => *i,
        _ => panic!("entry {entry} not found"),
    };
    let mut sh = solver::Shared::new();
    if !dump.is_empty() {
        sh.dump = Some(Mutex::new(std::fs::File::create(&dump).unwrap()));
        sh.dump_left.store(4000, Ordering::Relaxed);
    }
    let queue: Mutex<(Vec<Item>, usize)> = Mutex::new((vec![Item { model: concrete.clone().unwrap_or_default(), bound: if concrete.is_some() { usize::MAX } else { 0 } }], 0));
    let cv = Condvar::new();
    let stop = AtomicBool::new(false);
    let tot = Mutex::new(Tot::default());
    let deadline = t0 + Duration::from_secs(time);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let mut vm = Vm::new(&m, &sh, st, max_steps);
                        vm.trace_fn = trace;
                        loop {
                            let item = {
                                let mut q = queue.lock().unwrap();
                                loop {
                                    if stop.load(Ordering::Relaxed) {
                                        cv.notify_all();
                                        return;
                                    }
                                    if let Some(i) = q.0.pop() {
                                        q.1 += 1;
                                        break i;
                                    }
                                    if q.1 == 0 {
                                        cv.notify_all();
                                        return;
                                    }
                                    q = cv.wait_timeout(q, Duration::from_millis(200)).unwrap().0;
                                }
                            };
                            let res = vm.run_path(ent, &item);
                            {
                                let mut t = tot.lock().unwrap();
                                t.paths += 1;
                                t.decisions += vm.decisions as u64;
                                t.max_decisions = t.max_decisions.max(vm.decisions as u64);
                                t.steps += vm.steps;
                                t.max_steps = t.max_steps.max(vm.steps);
                                t.checks_const += std::mem::take(&mut vm.checks_const);
                                t.checks_smt += std::mem::take(&mut vm.checks_smt);
                                t.max_vars = t.max_vars.max(vm.ar.vars.len() as u64);
                                let rc = std::mem::take(&mut vm.reached);
                                t.reached.extend(rc);
                                for v in &vm.ar.vars {
                                    *t.var_names.entry(format!("{}:{}", v.name, v.bits)).or_default() += 1;
                                }
                                for (w, mo) in vm.violations.drain(..) {
                                    t.violations.push((w, mo, vec![]));
                                }
                                let sample = t.samples.len() < 3;
                                if sample {
                                    let vs: Vec<String> = vm.ar.vars.iter().zip(&vm.values).map(|(v, x)| format!("{}={}", v.name, x)).collect();
                                    t.samples.push(format!("{} | {}", vs.join(" "), vm.notes.join(" ; ")));
                                }
                                match res {
                                    Stop::Done => {
                                        t.completed += 1;
                                        t.traces.push((vm.values.clone(), vm.observed));
                                    }
                                    Stop::Assume => t.assume_cut += 1,
                                    Stop::Panic(s) => t.violations.push((format!("panic: {s}"), vm.values.clone(), vm.notes.clone())),
                                    Stop::Fail(id, s) => {
                                        let m2 = vm.values.clone();
                                        if !(t.violations.last().map(|(w, mo, _)| *w == format!("check {id}") && *mo == m2).unwrap_or(false)) {
                                            t.violations.push((format!("check {id}: {s}"), m2, vm.notes.clone()));
                                        }
                                    }
                                    Stop::Err(s) => {
                                        t.errors.push(format!("{s} (inputs {:?}; notes {:?})", vm.values, vm.notes));
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                                if t.violations.len() >= max_viol || t.paths >= max_paths || Instant::now() > deadline {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            let mut q = queue.lock().unwrap();
                            if concrete.is_none() {
                                q.0.append(&mut vm.children);
                            }
                            q.1 -= 1;
                            cv.notify_all();
                        }
                    }));
                    if let Err(e) = r {
                        let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        tot.lock().unwrap().errors.push(format!("engine panic: {msg}"));
                        stop.store(true, Ordering::Relaxed);
                        cv.notify_all();
                    }
                })
                .unwrap();
        }
    });
    let t = tot.into_inner().unwrap();
    let left = { let q = queue.lock().unwrap(); q.0.len() + q.1 };
    let exhaustive = left == 0 && t.errors.is_empty() && !stop.load(Ordering::Relaxed) || (left == 0 && t.errors.is_empty());
    let fns: Vec<&ir::FuncSlot> = m.funcs.iter().filter(|f| f.executed.load(Ordering::Relaxed)).collect();
    let mut o = String::from("{\n");
    let mut kv = |k: &str, v: String| o.push_str(&format!(" {}: {},\n", js(k), v));
    kv("entry", js(&entry));
    kv("exhaustive", exhaustive.to_string());
    kv("paths", t.paths.to_string());
    kv("completed", t.completed.to_string());
    kv("assume_cut", t.assume_cut.to_string());
    kv("queue_left", left.to_string());
    kv("decisions", t.decisions.to_string());
    kv("max_decisions", t.max_decisions.to_string());
    kv("steps", t.steps.to_string());
    kv("max_path_steps", t.max_steps.to_string());
    kv("checks_const", t.checks_const.to_string());
    kv("checks_smt", t.checks_smt.to_string());
    kv("max_vars", t.max_vars.to_string());
    kv("reached", format!("{:?}", t.reached.iter().collect::<Vec<_>>()));
    kv("queries", sh.queries.load(Ordering::Relaxed).to_string());
    kv("cache_hits", sh.cache_hits.load(Ordering::Relaxed).to_string());
    kv("sat", sh.sat.load(Ordering::Relaxed).to_string());
    kv("unsat", sh.unsat.load(Ordering::Relaxed).to_string());
    kv("solver_s", format!("{:.3}", sh.nanos.load(Ordering::Relaxed) as f64 / 1e9));
    kv("solver_max_s", format!("{:.3}", sh.max_nanos.load(Ordering::Relaxed) as f64 / 1e9));
    kv("load_s", format!("{:.3}", load_s));
    kv("wall_s", format!("{:.3}", t0.elapsed().as_secs_f64()));
    kv("functions_executed", fns.len().to_string());
    kv("instructions_encoded", fns.iter().map(|f| f.n_inst.load(Ordering::Relaxed)).sum::<u64>().to_string());
    let mut names: Vec<String> = fns.iter().map(|f| f.name.clone()).collect();
    names.sort();
    kv("functions", format!("[{}]", names.iter().map(|n| js(n)).collect::<Vec<_>>().join(",")));
    kv("vars", format!("{{{}}}", t.var_names.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")));
    kv("samples", format!("[{}]", t.samples.iter().map(|n| js(n)).collect::<Vec<_>>().join(",")));
    kv("errors", format!("[{}]", t.errors.iter().map(|n| js(n)).collect::<Vec<_>>().join(",")));
    kv(
        "violations",
        format!(
            "[{}]",
            t.violations
                .iter()
                .map(|(w, v, n)| format!("{{\"what\":{},\"values\":[{}],\"notes\":[{}]}}", js(w), v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), n.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")))
                .collect::<Vec<_>>()
                .join(",")
        ),
    );
    o.push_str(" \"engine\": \"llsym\"\n}\n");
    if out.is_empty() {
        println!("{o}");
    } else {
        std::fs::write(&out, &o).unwrap();
    }
    if !traces_out.is_empty() {
        let mut s = String::new();
        for (v, h) in &t.traces {
            s.push_str(&format!("{:016x} {}\n", h, v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
        }
        std::fs::write(&traces_out, s).unwrap();
    }
    if !t.errors.is_empty() {
        return 2;
    }
    if !t.violations.is_empty() {
        return 1;
    }
    0
}
