//! mksym: symbolic execution of rustc's LLVM IR with Z3 deciding feasibility and assertions.
mod exec;
mod expr;
mod ir;
mod solver;

use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<T>(v: impl IntoIterator<Item = T>, f: impl Fn(T) -> String) -> String {
    let x: Vec<String> = v.into_iter().map(f).collect();
    format!("[{}]", x.join(","))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: mksym IR.ll JOBS OUT.json [--threads N] [--secs S] [--steps N] [--solver-ms N] [--samples N] [--dump DIR N STRIDE]");
        std::process::exit(2);
    }
    let mut threads = 8usize;
    let mut secs = 600f64;
    let mut steps = 20_000_000u64;
    let mut solver_ms = 60_000u32;
    let mut samples = 12usize;
    let mut profile = false;
    let mut total = f64::MAX;
    let mut grace = 0u64;
    let mut dump: Option<(String, u32, u32)> = None;
    let mut i = 4;
    while i < a.len() {
        match a[i].as_str() {
            "--profile" => profile = a[i + 1] == "1",
            "--reset" => solver::RESET.store(a[i + 1].parse().unwrap(), Ordering::Relaxed),
            "--threads" => threads = a[i + 1].parse().unwrap(),
            "--secs" => secs = a[i + 1].parse().unwrap(),
            "--grace" => grace = a[i + 1].parse().unwrap(),
            "--total" => total = a[i + 1].parse().unwrap(),
            "--steps" => steps = a[i + 1].parse().unwrap(),
            "--solver-ms" => solver_ms = a[i + 1].parse().unwrap(),
            "--samples" => samples = a[i + 1].parse().unwrap(),
            "--dump" => {
                dump = Some((a[i + 1].clone(), a[i + 2].parse().unwrap(), a[i + 3].parse().unwrap()));
                i += 2;
            }
            x => {
                eprintln!("unknown option {}", x);
                std::process::exit(2);
            }
        }
        i += 2;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&a[1]).expect("read IR");
    let m = match ir::Module::parse(&text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("mksym: IR not understood: {}", e);
            std::process::exit(3);
        }
    };
    drop(text);
    let parse_secs = t0.elapsed().as_secs_f64();
    let prog: &'static exec::Prog = Box::leak(Box::new(exec::Prog::new(m)));
    // jobs: "name harness p0 p1 ..."
    let jobs: Vec<(String, String, Vec<u64>)> = std::fs::read_to_string(&a[2])
        .expect("read jobs")
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            let mut w = l.split_whitespace();
            let n = w.next().unwrap().to_string();
            let h = w.next().unwrap().to_string();
            (n, h, w.map(|x| x.parse().unwrap()).collect())
        })
        .collect();
    let jobs = Arc::new(jobs);
    let next = Arc::new(AtomicUsize::new(0));
    let out: Arc<Mutex<Vec<Option<exec::Report>>>> = Arc::new(Mutex::new((0..jobs.len()).map(|_| None).collect()));
    let mut hs = vec![];
    for _ in 0..threads.min(jobs.len()).max(1) {
        let (jobs, next, out, prog, dump) = (jobs.clone(), next.clone(), out.clone(), prog.clone(), dump.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(2 << 30)
                .spawn(move || loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= jobs.len() {
                        break;
                    }
                    let (name, h, params) = &jobs[k];
                    let left = total - t0.elapsed().as_secs_f64();
                    let opts = exec::Opts {
                        max_secs: secs.min(left).max(0.5),
                        start: t0,
                        grace,
                        // jobs over large inputs say so in their name
                        max_steps: if name.contains("big") { steps.saturating_mul(30) } else { steps },
                        max_viol: 6,
                        solver_ms,
                        dump: dump.clone().map(|(d, n, s)| (format!("{}/{}", d, name.replace('/', "_")), n, s)),
                        samples,
                        profile,
                    };
                    let p2 = prog.clone();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec::Eng::new(p2, params.clone(), opts).run(h)));
                    let r = match r {
                        Ok(r) => r,
                        Err(e) => {
                            let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                            let mut r = exec::Report::default();
                            r.errors.push(format!("engine failure: {}", msg));
                            r
                        }
                    };
                    out.lock().unwrap()[k] = Some(r);
                })
                .unwrap(),
        );
    }
    // a job stuck inside one instruction or query does not look at the clock
    let end = t0 + std::time::Duration::from_secs_f64(total.min(1e6) + 40.0);
    while std::time::Instant::now() < end && !hs.iter().all(|h| h.is_finished()) {
        std::thread::sleep(std::time::Duration::from_millis(5));
    }
    let stuck = !hs.iter().all(|h| h.is_finished());
    if !stuck {
        for h in hs {
            let _ = h.join();
        }
    }
    let out = out.lock().unwrap();
    let mut s = String::new();
    let _ = write!(s, "{{\"parse_secs\":{:.3},\"secs\":{:.3},\"functions_in_module\":{},\"jobs\":[\n", parse_secs, t0.elapsed().as_secs_f64(), prog.m.funcs.iter().filter(|f| f.defined).count());
    let mut blocks: BTreeSet<(u32, u32)> = BTreeSet::new();
    for (k, (name, h, params)) in jobs.iter().enumerate() {
        let r = out[k].clone().unwrap_or_else(|| {
            let mut r = exec::Report::default();
            if stuck {
                r.timed_out = true;
            } else {
                r.errors.push("job died".into());
            }
            r
        });
        for b in &r.blocks {
            blocks.insert(*b);
        }
        if k > 0 {
            s.push_str(",\n");
        }
        let _ = write!(
            s,
            "{{\"name\":{},\"harness\":{},\"params\":{},\"paths\":{},\"infeasible\":{},\"expected_panics\":{},\"forks\":{},\"merges\":{},\"instrs\":{},\"max_steps\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"cached\":{},\"unknown\":{},\"solver_secs\":{:.4},\"max_query_secs\":{:.4},\"secs\":{:.4},\"exprs\":{},\"inputs_max\":{},\"timed_out\":{},\"asserts_symbolic\":{},",
            esc(name), esc(h), arr(params, |p| p.to_string()), r.paths, r.infeasible, r.expected_panics, r.forks, r.merges, r.instrs, r.max_steps, r.stats.queries, r.stats.sat, r.stats.unsat, r.stats.cached, r.stats.unknown, r.stats.time, r.stats.max_time, r.secs, r.exprs, r.inputs_max, r.timed_out, r.asserts_symbolic
        );
        if profile {
            let mut v: Vec<_> = r.fork_sites.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            println!("{}: {} paths {} forks {} merges {:.2}s queries {} solver {:.2}", name, r.paths, r.forks, r.merges, r.secs, r.stats.queries, r.stats.time);
            for (k, n) in v.into_iter().take(12) {
                println!("    {:7} {}", n, k);
            }
            let mut v: Vec<_> = r.query_sites.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for (k, n) in v.into_iter().take(8) {
                println!("  Q {:7} {}", n, k);
            }
        }
        let _ = write!(s, "\"asserts\":{{{}}},", r.asserts.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
        let _ = write!(s, "\"reach\":{{{}}},", r.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
        let _ = write!(s, "\"errors\":{},", arr(&r.errors, |e| esc(e)));
        let _ = write!(s, "\"suspects\":{},", arr(&r.suspects, |e| arr(e, |x| x.to_string())));
        let _ = write!(s, "\"samples\":{},", arr(&r.samples, |(i, o)| format!("{{\"inputs\":{},\"obs\":{}}}", arr(i, |x| x.to_string()), arr(o, |x| x.to_string()))));
        let _ = write!(
            s,
            "\"violations\":{}}}",
            arr(&r.violations, |v| format!("{{\"kind\":{},\"id\":{},\"msg\":{},\"inputs\":{},\"stack\":{}}}", esc(&v.kind), esc(&v.id), esc(&v.msg), arr(&v.inputs, |x| x.to_string()), arr(&v.stack, |x| esc(x))))
        );
    }
    s.push_str("],\n\"lines\":{");
    // covered source lines of the code under test, from the debug info of the executed blocks
    let mut lines: std::collections::BTreeMap<String, BTreeSet<(String, u32)>> = Default::default();
    let mut fns: BTreeSet<String> = BTreeSet::new();
    let mut seen: BTreeSet<u32> = BTreeSet::new();
    for (f, b) in &blocks {
        let fun = &prog.m.funcs[*f as usize];
        fns.insert(fun.name.clone());
        for d in &fun.blocks[*b as usize].dbg {
            if *d == 0 || !seen.insert(*d) {
                continue;
            }
            for (file, line, name) in prog.m.locate(*d) {
                lines.entry(file).or_default().insert((name, line));
            }
        }
    }
    let mut first = true;
    for (f, ls) in &lines {
        if !f.contains("/src/store/") && !f.contains("bitpacking") && !f.contains("prost") {
            continue;
        }
        if !first {
            s.push_str(",\n");
        }
        first = false;
        let mut per: std::collections::BTreeMap<&str, Vec<u32>> = Default::default();
        for (n, l) in ls {
            per.entry(n).or_default().push(*l);
        }
        let _ = write!(s, "{}:{{{}}}", esc(f), per.iter().map(|(n, l)| format!("{}:{}", esc(n), arr(l, |x| x.to_string()))).collect::<Vec<_>>().join(","));
    }
    let _ = write!(s, "}},\n\"ir_functions_executed\":{}}}\n", fns.len());
    std::fs::write(&a[3], s).expect("write output");
}
