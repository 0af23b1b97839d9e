//! Runs a harness natively on recorded inputs.
//!
//! `replay NAME FILE`          one run; the inputs are the numbers in FILE. Exit code: 0 all checks
//!                             held, 1 a check failed or the code panicked, 3 an assumption failed,
//!                             4 inputs ran out, 9 memory out of proportion was requested.
//! `replay --batch FILE`       one run per line `NAME n n n ...`; prints status and outputs.
//! `replay --contracts SEED N` tests the number formatting and parsing contracts the engine uses.
use harness::sym::imp::{Ctx, Stop, CTX, LIMIT};
use harness::TABLE;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::Ordering;

struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        guard(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        guard(n);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static G: A = A;
fn guard(n: usize) {
    if n as u64 > LIMIT.load(Ordering::Relaxed) {
        LIMIT.store(u64::MAX, Ordering::SeqCst);
        println!("alloc {}", n);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(9);
    }
}

fn one(name: &str, inputs: Vec<u64>) -> (String, i32, Vec<u64>, Vec<String>) {
    let f = match TABLE.iter().find(|t| t.0 == name) {
        Some(f) => f.1,
        None => return ("unknown".into(), 5, vec![], vec![]),
    };
    CTX.with(|c| *c.borrow_mut() = Ctx { inputs, ..Ctx::default() });
    LIMIT.store(u64::MAX, Ordering::SeqCst);
    let r = std::panic::catch_unwind(|| f());
    LIMIT.store(u64::MAX, Ordering::SeqCst);
    let c = CTX.with(|c| std::mem::take(&mut *c.borrow_mut()));
    let covers = c.covers;
    if let Some(m) = c.failed.first() {
        return (format!("check {}", m), 1, c.outs, covers);
    }
    match r {
        Ok(()) => ("ok".into(), 0, c.outs, covers),
        Err(e) => match e.downcast_ref::<Stop>() {
            Some(Stop("stop")) => ("ok".into(), 0, c.outs, covers),
            Some(Stop("assume")) => ("assume".into(), 3, c.outs, covers),
            Some(_) => ("exhausted".into(), 4, c.outs, covers),
            None => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into());
                (format!("panic {}", m.replace('\n', " ")), 1, c.outs, covers)
            }
        },
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("REPLAY_VERBOSE").is_some() {
            eprintln!("{}", i);
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--batch" {
        let t = std::fs::read_to_string(&a[2]).unwrap();
        for l in t.lines() {
            let mut w = l.split_whitespace();
            let name = match w.next() {
                Some(n) => n.to_string(),
                None => continue,
            };
            let inputs = w.map(|x| x.parse().unwrap()).collect();
            let (s, c, o, v) = one(&name, inputs);
            let o: Vec<String> = o.iter().map(|x| x.to_string()).collect();
            println!("{}\t{}\t{}\t{}", c, s, o.join(" "), v.join("|"));
        }
        return;
    }
    if a[1] == "--contracts" {
        std::process::exit(harness::contracts(a[2].parse().unwrap(), a[3].parse().unwrap()));
    }
    let t = std::fs::read_to_string(&a[2]).unwrap();
    let inputs = t.split_whitespace().map(|x| x.parse().unwrap()).collect();
    let (s, c, o, v) = one(&a[1], inputs);
    println!("{}", s);
    println!("outs {:?}", o);
    println!("covers {:?}", v);
    std::process::exit(c);
}
