//! symex IR --harness name:seconds[,name:seconds...] [--jobs N] [--out FILE] ...
//! Symbolic execution of harness functions in an LLVM IR module.

mod exec;
mod expr;
mod ir;
mod solver;

use exec::*;
use solver::SolverStats;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

struct Shared {
    q: Mutex<(Vec<Job>, usize, bool)>, // jobs, idle workers, finished
    cv: Condvar,
    idle: AtomicUsize,
    queued: AtomicUsize,
    stop: AtomicUsize,
}

#[derive(Default)]
struct Out {
    st: Stats,
    sv: SolverStats,
    cands: Vec<Cand>,
    samples: Vec<Sample>,
    covers: BTreeMap<String, Vec<u64>>,
    funcs: BTreeSet<u32>,
    exprs: u64,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 > 126 => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn ja(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ir_path = String::new();
    let mut harness = vec![];
    let mut jobs = 8usize;
    let mut out = String::new();
    let mut max_steps = 30_000_000u64;
    let mut z3_ms = 20_000u32;
    let mut samples = 8usize;
    let mut xcheck = 500u64;
    let mut max_cands = 200usize;
    let mut i = 1;
    while i < args.len() {
        let nx = |i: usize| args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--harness" => {
                for h in nx(i).split(',') {
                    let (n, s) = h.split_once(':').unwrap_or((h, "60"));
                    harness.push((n.to_string(), s.parse::<f64>().unwrap()));
                }
                i += 1;
            }
            "--jobs" => {
                jobs = nx(i).parse().unwrap();
                i += 1;
            }
            "--out" => {
                out = nx(i);
                i += 1;
            }
            "--max-steps" => {
                max_steps = nx(i).parse().unwrap();
                i += 1;
            }
            "--z3-ms" => {
                z3_ms = nx(i).parse().unwrap();
                i += 1;
            }
            "--samples" => {
                samples = nx(i).parse().unwrap();
                i += 1;
            }
            "--xcheck" => {
                xcheck = nx(i).parse().unwrap();
                i += 1;
            }
            "--max-cands" => {
                max_cands = nx(i).parse().unwrap();
                i += 1;
            }
            a => ir_path = a.to_string(),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ir_path).expect("read IR");
    let m = match ir::Module::parse(&text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("IR parse error: {}", e);
            std::process::exit(3);
        }
    };
    drop(text);
    let prog = match Prog::new(m) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("IR error: {}", e);
            std::process::exit(3);
        }
    };
    let parse_secs = t0.elapsed().as_secs_f64();
    let mut res = String::new();
    res.push_str(&format!(
        "{{\"ir_bytes\":{},\"functions\":{},\"parse_secs\":{:.2},\"harnesses\":[",
        prog.m.text_len,
        prog.m.funcs.len(),
        parse_secs
    ));
    let mut first = true;
    for (name, budget) in &harness {
        let func = match prog.m.func_idx.get(name) {
            Some(f) => *f,
            None => {
                eprintln!("no harness {}", name);
                std::process::exit(3);
            }
        };
        let t1 = Instant::now();
        let deadline = t1 + Duration::from_secs_f64(*budget);
        let sh = Shared {
            q: Mutex::new((vec![Job { trail: vec![], seed: vec![] }], 0, false)),
            cv: Condvar::new(),
            idle: AtomicUsize::new(0),
            queued: AtomicUsize::new(1),
            stop: AtomicUsize::new(0),
        };
        let o = Mutex::new(Out::default());
        std::thread::scope(|sc| {
            for _ in 0..jobs {
                let (sh, o, prog) = (&sh, &o, &prog);
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(sc, move || {
                        worker(prog, func, sh, o, jobs, deadline, z3_ms, max_steps, samples, xcheck, max_cands)
                    })
                    .unwrap();
            }
        });
        let o = o.into_inner().unwrap();
        let secs = t1.elapsed().as_secs_f64();
        if !first {
            res.push(',');
        }
        first = false;
        let s = &o.st;
        let v = &o.sv;
        res.push_str(&format!("{{\"name\":{},\"secs\":{:.2},\"budget\":{},", js(name), secs, budget));
        res.push_str(&format!(
            "\"paths\":{},\"pruned\":{},\"stopped\":{},\"forks\":{},\"decisions\":{},\"steps\":{},\"max_path_steps\":{},\"checks\":{},\"checks_folded\":{},\"checks_solver\":{},\"assumes\":{},\"jobs\":{},\"peak_alloc\":{},\"max_trail\":{},\"max_inputs\":{},\"exprs\":{},",
            s.paths, s.pruned, s.stopped, s.forks, s.decisions, s.steps, s.max_path_steps, s.checks, s.checks_folded, s.checks_solver, s.assumes, s.jobs, s.peak_alloc, s.max_trail, s.max_inputs, o.exprs
        ));
        res.push_str(&format!(
            "\"z3_calls\":{},\"z3_sat\":{},\"z3_unsat\":{},\"z3_unknown\":{},\"z3_secs\":{:.3},\"z3_max\":{:.3},\"cache_hits\":{},\"dom_decided\":{},\"xchecked\":{},",
            v.z3_calls, v.z3_sat, v.z3_unsat, v.z3_unknown, v.z3_secs, v.z3_max, v.cache_hits, v.dom_decided, v.xchecked
        ));
        res.push_str("\"incomplete\":{");
        res.push_str(&s.incomplete.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect::<Vec<_>>().join(","));
        res.push_str("},\"covers\":{");
        res.push_str(&o.covers.iter().map(|(k, n)| format!("{}:{}", js(k), ja(n))).collect::<Vec<_>>().join(","));
        res.push_str("},\"candidates\":[");
        res.push_str(
            &o.cands
                .iter()
                .map(|c| {
                    format!(
                        "{{\"kind\":{},\"msg\":{},\"count\":{},\"stack\":[{}],\"inputs\":[{}],\"widths\":[{}]}}",
                        js(&c.kind),
                        js(&c.msg),
                        c.count,
                        c.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
                        c.inputs.iter().map(|x| ja(x)).collect::<Vec<_>>().join(","),
                        c.widths.iter().map(|x| ja(x)).collect::<Vec<_>>().join(",")
                    )
                })
                .collect::<Vec<_>>()
                .join(","),
        );
        res.push_str("],\"samples\":[");
        res.push_str(
            &o.samples
                .iter()
                .map(|c| format!("{{\"inputs\":{},\"outs\":{}}}", ja(&c.inputs), ja(&c.outs)))
                .collect::<Vec<_>>()
                .join(","),
        );
        res.push_str("],\"funcs\":[");
        res.push_str(
            &o.funcs.iter().map(|f| js(&prog.m.funcs[*f as usize].name)).collect::<Vec<_>>().join(","),
        );
        res.push_str("]}");
        eprintln!(
            "{} {:.1}s paths={} pruned={} forks={} steps={:.1}M checks={}({} solver) z3={} ({:.1}s, max {:.1}) dom={} cache={} cands={} incomplete={:?}",
            name,
            secs,
            s.paths,
            s.pruned,
            s.forks,
            s.steps as f64 / 1e6,
            s.checks,
            s.checks_solver,
            v.z3_calls,
            v.z3_secs,
            v.z3_max,
            v.dom_decided,
            v.cache_hits,
            o.cands.len(),
            s.incomplete
        );
    }
    res.push_str("]}\n");
    if out.is_empty() {
        println!("{}", res);
    } else {
        std::fs::write(&out, res).expect("write out");
    }
}

#[allow(clippy::too_many_arguments)]
fn worker(
    prog: &Prog,
    func: u32,
    sh: &Shared,
    o: &Mutex<Out>,
    jobs: usize,
    deadline: Instant,
    z3_ms: u32,
    max_steps: u64,
    samples: usize,
    xcheck: u64,
    max_cands: usize,
) {
    let lim = Limits { max_steps, conc_limit: 1024, samples, xcheck };
    let mut e = Exec::new(prog, z3_ms, lim);
    e.deadline = deadline;
    loop {
        let job = {
            let mut g = sh.q.lock().unwrap();
            g.1 += 1;
            sh.idle.fetch_add(1, Ordering::SeqCst);
            loop {
                if let Some(j) = g.0.pop() {
                    sh.queued.fetch_sub(1, Ordering::SeqCst);
                    g.1 -= 1;
                    sh.idle.fetch_sub(1, Ordering::SeqCst);
                    break Some(j);
                }
                if g.1 == jobs || g.2 {
                    g.2 = true;
                    sh.cv.notify_all();
                    break None;
                }
                g = sh.cv.wait(g).unwrap();
            }
        };
        let job = match job {
            Some(j) => j,
            None => break,
        };
        let mut share = |work: &mut VecDeque<exec::State>, _n: &mut u64| {
            while work.len() > 1 && sh.idle.load(Ordering::Relaxed) > sh.queued.load(Ordering::Relaxed) {
                let s = work.pop_front().unwrap();
                let j = Exec::export(&s);
                let mut g = sh.q.lock().unwrap();
                g.0.push(j);
                sh.queued.fetch_add(1, Ordering::SeqCst);
                drop(g);
                sh.cv.notify_one();
            }
        };
        e.run_job(func, &job, &mut share);
        if e.full {
            let mut g = sh.q.lock().unwrap();
            for s in e.work.drain(..) {
                g.0.push(Exec::export(&s));
                sh.queued.fetch_add(1, Ordering::SeqCst);
            }
            drop(g);
            sh.cv.notify_all();
            merge(&mut e, prog, o);
            let lim = Limits { max_steps, conc_limit: 1024, samples, xcheck };
            e = Exec::new(prog, z3_ms, lim);
            e.deadline = deadline;
        }
        if e.cands.values().filter(|c| c.kind != "undecided").count() > max_cands {
            sh.stop.store(1, Ordering::SeqCst);
        }
        if sh.stop.load(Ordering::SeqCst) == 1 {
            e.deadline = Instant::now();
        }
    }
    merge(&mut e, prog, o);
}

fn merge(e: &mut Exec, prog: &Prog, o: &Mutex<Out>) {
    let _ = prog;
    let mut g = o.lock().unwrap();
    let s = &e.st;
    let t = &mut g.st;
    t.paths += s.paths;
    t.pruned += s.pruned;
    t.stopped += s.stopped;
    t.forks += s.forks;
    t.decisions += s.decisions;
    t.steps += s.steps;
    t.checks += s.checks;
    t.checks_folded += s.checks_folded;
    t.checks_solver += s.checks_solver;
    t.assumes += s.assumes;
    t.jobs += s.jobs;
    t.max_path_steps = t.max_path_steps.max(s.max_path_steps);
    t.peak_alloc = t.peak_alloc.max(s.peak_alloc);
    t.max_trail = t.max_trail.max(s.max_trail);
    t.max_inputs = t.max_inputs.max(s.max_inputs);
    for (k, n) in &s.incomplete {
        *t.incomplete.entry(k.clone()).or_default() += n;
    }
    let v = &e.z.st;
    let w = &mut g.sv;
    w.z3_calls += v.z3_calls;
    w.z3_sat += v.z3_sat;
    w.z3_unsat += v.z3_unsat;
    w.z3_unknown += v.z3_unknown;
    w.z3_secs += v.z3_secs;
    w.z3_max = w.z3_max.max(v.z3_max);
    w.cache_hits += v.cache_hits;
    w.dom_decided += v.dom_decided;
    w.xchecked += v.xchecked;
    for c in e.cands.values() {
        if let Some(d) = g.cands.iter_mut().find(|d| d.kind == c.kind && d.msg == c.msg && d.stack == c.stack) {
            d.count += c.count;
            for (i, w) in c.inputs.iter().zip(&c.widths) {
                if d.inputs.len() < 768 && !d.inputs.contains(i) {
                    d.inputs.push(i.clone());
                    d.widths.push(w.clone());
                }
            }
        } else {
            g.cands.push(c.clone());
        }
    }
    let sm = std::mem::take(&mut e.samples);
    g.samples.extend(sm);
    for (k, i) in &e.covers {
        let n = e.strs[*k as usize].clone();
        if let Some(i) = i {
            g.covers.entry(n).or_insert(i.clone());
        }
    }
    g.funcs.extend(e.funcs_hit.iter());
    g.exprs += e.ar.nodes.len() as u64;
}
