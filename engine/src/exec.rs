//! Symbolic execution of the decoded IR.

use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::rc::Rc;
use std::sync::Arc;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- program

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sp {
    None,
    Panic,
    AllocErr,
    Lex(u8), // token kind
    Fmt(u8),
    FromStr(u8),
    TryFromSecs,
    NopRet0,
}

pub struct FInfo {
    pub sp: Sp,
    pub alloca_total: u64,
    pub alloca_off: HashMap<(u32, u32), u64>,
    pub is_target: bool,
}

pub struct Prog {
    pub m: Module,
    pub fi: Vec<FInfo>,
    pub stubs: HashMap<&'static str, u32>,
    pub first_free: u32,
}

pub const TOK_F32: u8 = 0;
pub const TOK_F64: u8 = 1;
pub const TOK_USIZE: u8 = 2;

impl Prog {
    pub fn new(m: Module) -> Result<Prog, String> {
        let mut fi = vec![];
        let mut stubs = HashMap::new();
        for (i, f) in m.funcs.iter().enumerate() {
            let n = &f.name;
            let np = f.params.len();
            let has = |s: &str| n.contains(s);
            let mut sp = Sp::None;
            if has("9panicking9panic_fmt")
                || has("9panicking14panic_nounwind")
                || has("9panicking18panic_nounwind_fmt")
                || has("9panicking19panic_cannot_unwind")
                || has("9panicking26panic_nounwind_nobacktrace")
                || has("9panicking16panic_in_cleanup")
                || has("std9panicking11begin_panic") && n.starts_with("_RI")
                || has("17rust_begin_unwind")
                || has("15panic_with_hook")
            {
                sp = Sp::Panic;
            } else if has("5alloc18handle_alloc_error") || has("12___rust_abort") {
                sp = Sp::AllocErr;
            } else if has("11FromLexical12from_lexical") && has("12lexical_core4ato") {
                let k = if has("atof3apif") {
                    Some(TOK_F32)
                } else if has("atof3apid") {
                    Some(TOK_F64)
                } else if has("atoi3apij") {
                    Some(TOK_USIZE)
                } else {
                    None
                };
                if let Some(k) = k {
                    if np != 3 || f.params[0].0 != Ty::Ptr || f.params[2].0 != Ty::Int(64) {
                        return Err(format!("unexpected signature of {}", n));
                    }
                    sp = Sp::Lex(k);
                }
            } else if has("11float_parsefNt") && n.ends_with("6traits7FromStr8from_str") {
                sp = Sp::FromStr(TOK_F32);
            } else if has("11float_parsedNt") && n.ends_with("6traits7FromStr8from_str") {
                sp = Sp::FromStr(TOK_F64);
            } else if n.ends_with("3fmt5floatfNtB7_7Display3fmt") || n.ends_with("3fmt5floatfNtB7_5Debug3fmt") {
                sp = Sp::Fmt(TOK_F32);
            } else if n.ends_with("3fmt5floatdNtB7_7Display3fmt") || n.ends_with("3fmt5floatdNtB7_5Debug3fmt") {
                sp = Sp::Fmt(TOK_F64);
            } else if n.contains("3fmt3num3impjNtB9_7Display3fmt") || n.contains("3fmt3num3impyNtB9_7Display3fmt")
                || n.contains("3fmt3numjNtB7_5Debug3fmt") || n.contains("3fmt3numyNtB7_5Debug3fmt")
            {
                sp = Sp::Fmt(TOK_USIZE);
            } else if has("Duration17try_from_secs_f64") {
                if np != 2 || f.params[1].0 != Ty::F64 {
                    return Err(format!("unexpected signature of {}", n));
                }
                sp = Sp::TryFromSecs;
            } else if has("35___rust_no_alloc_shim") || has("6random11RandomState") && has("8hash_one") && np == 2 {
                // a randomly keyed hash: any function of the key will do
                sp = Sp::NopRet0;
            }
            for s in ["stub_lex_f32", "stub_lex_f64", "stub_lex_usize", "stub_fmt_f32", "stub_fmt_f64", "stub_fmt_usize", "stub_dur", "stub_str_f32", "stub_str_f64"] {
                if n == s {
                    stubs.insert(s, i as u32);
                }
            }
            let mut total = 0u64;
            let mut off = HashMap::new();
            for (bi, b) in f.blocks.iter().enumerate() {
                for (ii, ins) in b.ins.iter().enumerate() {
                    if let I::Alloca { size, count: None } = &ins.i {
                        total = round_up(total, 16);
                        off.insert((bi as u32, ii as u32), total);
                        total += size;
                    }
                }
            }
            let is_target = n.contains("8bvh_anim");
            fi.push(FInfo { sp, alloca_total: total, alloca_off: off, is_target });
        }
        let mut first_free = 16u64;
        for g in &m.globals {
            first_free = first_free.max((g.addr >> OBJ_SHIFT) + 1 + (g.ty.size() >> OBJ_SHIFT));
        }
        Ok(Prog { m, fi, stubs, first_free: first_free as u32 })
    }
}

// ---------------------------------------------------------------- memory

#[derive(Clone)]
pub struct Obj {
    pub b: Vec<u8>,
    pub s: Vec<u32>, // empty: no symbolic bytes
    pub ro: bool,
}

const CH: usize = 32;
#[derive(Clone)]
pub struct Mem {
    ch: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    free: Rc<Vec<u32>>,
    next: u32,
}

impl Mem {
    fn slot(&mut self, id: u32) -> &mut Option<Rc<Obj>> {
        let c = id as usize / CH;
        while self.ch.len() <= c {
            self.ch.push(Rc::new(vec![None; CH]));
        }
        &mut Rc::make_mut(&mut self.ch[c])[id as usize % CH]
    }
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        self.ch.get(id as usize / CH)?.get(id as usize % CH)?.as_ref()
    }
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = id as usize / CH;
        if c >= self.ch.len() {
            return None;
        }
        let chunk = Rc::make_mut(&mut self.ch[c]);
        chunk[id as usize % CH].as_mut().map(Rc::make_mut)
    }
    pub fn alloc(&mut self, size: u64) -> u32 {
        let id = match if self.free.is_empty() { None } else { Rc::make_mut(&mut self.free).pop() } {
            Some(i) => i,
            None => {
                self.next += 1;
                self.next - 1
            }
        };
        *self.slot(id) = Some(Rc::new(Obj { b: vec![0; size as usize], s: vec![], ro: false }));
        id
    }
    pub fn release(&mut self, id: u32) {
        *self.slot(id) = None;
        Rc::make_mut(&mut self.free).push(id);
    }
}

// ---------------------------------------------------------------- state

#[derive(Clone)]
pub struct Frame {
    pub func: u32,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub dst: u32,
    pub normal: u32,
    pub stk: u32,
}

#[derive(Clone)]
pub struct Tok {
    pub kind: u8,
    pub e: Id, // value bits, 0 width mismatch never happens
    pub prec: u32,
    pub text: Rc<Vec<u8>>,
    /// value the text reads back as, by reading kind, when that is not `e`
    pub read: [Option<Id>; 2],
}

pub struct TrailNode {
    pub loc: u32,
    pub choice: u64,
    pub prev: Option<Rc<TrailNode>>,
}

#[derive(Clone)]
pub struct State {
    pub top: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub dom: Rc<HashMap<u32, Set256>>,
    pub cons: Rc<Vec<Id>>,
    pub linked: Rc<HashSet<u32>>,
    pub known: Rc<HashMap<Id, u128>>,
    pub model: Rc<Vec<u64>>,
    pub inputs: Rc<Vec<u32>>,
    pub trail: Option<Rc<TrailNode>>,
    pub ntrail: u32,
    pub toks: Rc<Vec<Tok>>,
    pub outs: Rc<Vec<Val>>,
    pub covers: Rc<BTreeSet<u32>>,
    pub steps: u64,
    pub live: u64,
    pub peak: u64,
    pub limit: u64,
    pub total_limit: u64,
    /// The path may take this many times the usual number of steps.
    pub patience: u64,
    pub checks: u32,
    pub nondet: u32,
    /// positions in `inputs` made by the engine itself (not read by the harness)
    pub internal: Rc<Vec<u32>>,
}

#[derive(Clone, Debug)]
pub struct Job {
    pub trail: Vec<(u32, u64)>,
    pub seed: Vec<u64>,
}

#[derive(Clone, Debug)]
pub struct Cand {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<Vec<u64>>,
    pub widths: Vec<Vec<u64>>,
    pub count: u64,
}

pub enum Stop {
    Done,
    Pruned,
    Cand(String, String),
    Unsup(String),
    Incomplete(String),
    Stopped,
}
type Ex<T> = Result<T, Stop>;

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64,
    pub pruned: u64,
    pub stopped: u64,
    pub forks: u64,
    pub decisions: u64,
    pub steps: u64,
    pub checks: u64,
    pub checks_folded: u64,
    pub checks_solver: u64,
    pub assumes: u64,
    pub incomplete: BTreeMap<String, u64>,
    pub jobs: u64,
    pub max_path_steps: u64,
    pub peak_alloc: u64,
    pub max_trail: u64,
    pub max_inputs: u64,
}

pub struct Sample {
    pub inputs: Vec<u64>,
    pub outs: Vec<u64>,
}

pub struct Limits {
    pub max_steps: u64,
    pub conc_limit: usize,
    pub samples: usize,
    pub xcheck: u64,
}

pub struct Exec<'p> {
    rcache: HashMap<(Id, Set256), (u128, u128)>,
    slow: f64,
    pub p: &'p Prog,
    pub ar: Arena,
    pub z: Z3,
    base: Mem,
    varmap: HashMap<(u32, u32), u32>,
    pub work: VecDeque<State>,
    pub st: Stats,
    pub lim: Limits,
    pub cands: HashMap<(String, String, String), Cand>,
    pub samples: Vec<Sample>,
    pub covers: HashMap<u32, Option<Vec<u64>>>,
    pub strs: Vec<String>,
    strmap: HashMap<String, u32>,
    pub funcs_hit: HashSet<u32>,
    qcache: HashMap<(Vec<Id>, Vec<(u32, Set256)>), Option<Vec<(u32, u64)>>>,
    replay: Vec<(u32, u64)>,
    rpos: usize,
    seed: Vec<u64>,
    pub deadline: Instant,
    /// the expression store is full: `work` is to be exported
    pub full: bool,
    domctr: u64,
}

fn hash64(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

impl<'p> Exec<'p> {
    pub fn new(p: &'p Prog, z3_ms: u32, lim: Limits) -> Exec<'p> {
        let mut e = Exec {
            rcache: HashMap::new(),
            slow: std::env::var("SYMEX_SLOW").ok().and_then(|x| x.parse().ok()).unwrap_or(0.0),
            p,
            ar: Arena::new(),
            z: Z3::new(z3_ms),
            base: Mem { ch: vec![], free: Rc::new(vec![]), next: 0 },
            varmap: HashMap::new(),
            work: VecDeque::new(),
            st: Default::default(),
            lim,
            cands: HashMap::new(),
            samples: vec![],
            covers: HashMap::new(),
            strs: vec![],
            strmap: HashMap::new(),
            funcs_hit: HashSet::new(),
            qcache: HashMap::new(),
            replay: vec![],
            rpos: 0,
            seed: vec![],
            deadline: Instant::now() + Duration::from_secs(100000),
            domctr: 0,
            full: false,
        };
        for g in &p.m.globals {
            let id = (g.addr >> OBJ_SHIFT) as u32;
            let sz = g.ty.size();
            let mut b = vec![0u8; sz as usize];
            init_bytes(&mut b, 0, &g.ty, &g.init);
            *e.base.slot(id) = Some(Rc::new(Obj { b, s: vec![], ro: g.constant }));
        }
        e.base.next = p.first_free;
        e
    }

    fn intern(&mut self, s: &str) -> u32 {
        if let Some(i) = self.strmap.get(s) {
            return *i;
        }
        let i = self.strs.len() as u32;
        self.strs.push(s.to_string());
        self.strmap.insert(s.to_string(), i);
        i
    }

    pub fn initial(&self, func: u32) -> State {
        State {
            top: self.new_frame(func, NONE, NONE),
            stack: vec![],
            mem: self.base.clone(),
            dom: Default::default(),
            cons: Default::default(),
            linked: Default::default(),
            known: Default::default(),
            model: Default::default(),
            inputs: Default::default(),
            trail: None,
            ntrail: 0,
            toks: Default::default(),
            outs: Default::default(),
            covers: Default::default(),
            steps: 0,
            live: 0,
            peak: 0,
            limit: 8 << 20,
            total_limit: 64 << 20,
            patience: 1,
            checks: 0,
            nondet: 0,
            internal: Default::default(),
        }
    }

    fn new_frame(&self, func: u32, dst: u32, normal: u32) -> Frame {
        let f = &self.p.m.funcs[func as usize];
        Frame { func, block: 0, ip: 0, regs: vec![Val::C(0); f.nregs as usize], dst, normal, stk: 0 }
    }

    /// Explore one job completely; `share` is offered pending states.
    pub fn run_job(&mut self, func: u32, job: &Job, share: &mut dyn FnMut(&mut VecDeque<State>, &mut u64)) {
        self.st.jobs += 1;
        self.replay = job.trail.clone();
        self.rpos = 0;
        self.seed = job.seed.clone();
        let st = self.initial(func);
        self.work.push_back(st);
        let mut first = true;
        while let Some(s) = self.work.pop_back() {
            if Instant::now() > self.deadline {
                let n = self.work.len() as u64 + 1;
                *self.st.incomplete.entry("time budget: unexplored path prefixes".into()).or_default() += n;
                self.work.clear();
                break;
            }
            if self.ar.nodes.len() > 6_000_000 && !first {
                // bound memory: hand the rest over to a fresh executor
                self.work.push_back(s);
                self.full = true;
                break;
            }
            self.run_state(s);
            if first {
                if self.rpos < self.replay.len() {
                    if self.slow > 0.0 { eprintln!("DIV end {} of {}", self.rpos, self.replay.len()); }
                    *self.st.incomplete.entry("replay divergence".into()).or_default() += 1;
                }
                first = false;
            }
            let mut exported = 0;
            share(&mut self.work, &mut exported);
        }
    }

    pub fn export(st: &State) -> Job {
        let mut t = vec![];
        let mut n = st.trail.clone();
        while let Some(x) = n {
            t.push((x.loc, x.choice));
            n = x.prev.clone();
        }
        t.reverse();
        let seed = st.inputs.iter().map(|v| *st.model.get(*v as usize).unwrap_or(&0)).collect();
        Job { trail: t, seed }
    }

    fn inputs_of(&self, st: &State, model: &[u64]) -> Vec<u64> {
        st.inputs
            .iter()
            .enumerate()
            .filter(|(i, _)| !st.internal.contains(&(*i as u32)))
            .map(|(_, v)| *model.get(*v as usize).unwrap_or(&0))
            .collect()
    }

    fn run_state(&mut self, mut st: State) {
        let s0 = st.steps;
        let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.drive(&mut st))) {
            Ok(r) => r,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned();
                let m = m.or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                Stop::Unsup(format!("engine: {}", m.unwrap_or_default()))
            }
        };
        self.st.steps += st.steps - s0;
        self.st.max_path_steps = self.st.max_path_steps.max(st.steps);
        self.st.peak_alloc = self.st.peak_alloc.max(st.peak);
        self.st.max_trail = self.st.max_trail.max(st.ntrail as u64);
        self.st.max_inputs = self.st.max_inputs.max(st.inputs.len() as u64);
        match r {
            Stop::Done | Stop::Stopped => {
                if matches!(r, Stop::Stopped) {
                    self.st.stopped += 1;
                } else {
                    self.st.paths += 1;
                }
                let covers = st.covers.clone();
                for c in covers.iter() {
                    if !self.covers.contains_key(c) {
                        let i = self.inputs_of(&st, &st.model);
                        self.covers.insert(*c, Some(i));
                    }
                }
                // reservoir of samples for the differential run
                let n = self.st.paths;
                let take = self.samples.len() < self.lim.samples;
                let k = hash64(n * 7919 + self.st.jobs) % n.max(1);
                if take || (k as usize) < self.lim.samples {
                    let model = st.model.clone();
                    let mut memo = HashMap::new();
                    let outs = st
                        .outs
                        .iter()
                        .map(|v| match v {
                            Val::C(c) => *c as u64,
                            Val::S(e) => {
                                self.ar.eval(*e, &|v| *model.get(v as usize).unwrap_or(&0), &mut memo) as u64
                            }
                            _ => 0,
                        })
                        .collect();
                    let smp = Sample { inputs: self.inputs_of(&st, &st.model), outs };
                    if st.nondet == 0 {
                        if take {
                            self.samples.push(smp);
                        } else {
                            self.samples[k as usize] = smp;
                        }
                    }
                }
            }
            Stop::Pruned => self.st.pruned += 1,
            Stop::Cand(kind, msg) => {
                self.st.paths += 1;
                let model = st.model.clone();
                self.candidate(&st, &kind, &msg, &model);
            }
            Stop::Unsup(s) => {
                let fname = self.p.m.funcs[st.top.func as usize].name.clone();
                *self.st.incomplete.entry(format!("unsupported: {} in {}", s, fname)).or_default() += 1;
                let model = st.model.clone();
                self.candidate(&st, "undecided", &format!("unsupported: {}", s), &model);
            }
            Stop::Incomplete(s) => {
                if s != "replay divergence" {
                    let model = st.model.clone();
                    self.candidate(&st, "undecided", &s, &model);
                }
                *self.st.incomplete.entry(s).or_default() += 1;
            }
        }
    }

    fn backtrace(&self, st: &State) -> Vec<String> {
        let mut v = vec![self.p.m.funcs[st.top.func as usize].name.clone()];
        for f in st.stack.iter().rev() {
            v.push(self.p.m.funcs[f.func as usize].name.clone());
        }
        v
    }

    fn candidate(&mut self, st: &State, kind: &str, msg: &str, model: &[u64]) {
        let bt = self.backtrace(st);
        let site = bt
            .iter()
            .find(|n| n.contains("8bvh_anim") && !n.contains("drop_glue"))
            .cloned()
            .unwrap_or_default();
        let key = (kind.to_string(), msg.to_string(), site);
        let inputs = self.inputs_of(st, model);
        let widths: Vec<u64> = st
            .inputs
            .iter()
            .enumerate()
            .filter(|(i, _)| !st.internal.contains(&(*i as u32)))
            .map(|(_, v)| self.ar.var_w[*v as usize] as u64)
            .collect();
        if let Some(c) = self.cands.get_mut(&key) {
            c.count += 1;
            // an even sample of the failing paths: one message can stand for several causes
            if c.inputs.len() < 96 {
                c.inputs.push(inputs);
                c.widths.push(widths);
            } else {
                let mut r = c.count.wrapping_mul(0x9e37_79b9_7f4a_7c15);
                r = (r ^ (r >> 29)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                let k = ((r ^ (r >> 32)) % c.count) as usize;
                if k < c.inputs.len() {
                    c.inputs[k] = inputs;
                    c.widths[k] = widths;
                }
            }
            return;
        }
        let c = Cand {
            kind: kind.into(),
            msg: msg.into(),
            stack: bt.into_iter().take(14).collect(),
            inputs: vec![inputs],
            widths: vec![widths],
            count: 1,
        };
        self.cands.insert(key, c);
    }

    // ------------------------------------------------------ constraints

    fn dom_of(&self, st: &State, v: u32) -> Set256 {
        match st.dom.get(&v) {
            Some(s) => *s,
            None => {
                let n = 1usize << self.ar.var_w[v as usize];
                let mut s = [0u64; 4];
                for i in 0..n {
                    s[i / 64] |= 1 << (i % 64);
                }
                s
            }
        }
    }

    /// Value of a Boolean under the domains: Some(b) if the same for all.
    fn tri(&mut self, st: &State, e: Id, memo: &mut HashMap<Id, Option<bool>>) -> Option<bool> {
        if let Some(c) = self.ar.as_const(e) {
            return Some(c & 1 == 1);
        }
        if let Some(v) = st.known.get(&e) {
            return Some(*v & 1 == 1);
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let r = match self.ar.sup[e as usize] {
            Sup::One(v) => {
                let s = self.ar.set256(e);
                let d = self.dom_of(st, v);
                let mut any_t = false;
                let mut any_f = false;
                for i in 0..4 {
                    any_t |= s[i] & d[i] != 0;
                    any_f |= !s[i] & d[i] != 0;
                }
                match (any_t, any_f) {
                    (true, false) => Some(true),
                    (false, true) => Some(false),
                    _ => None,
                }
            }
            _ => {
                let n = self.ar.nodes[e as usize];
                match n.k {
                    K::And if n.w == 1 => match (self.tri(st, n.a, memo), self.tri(st, n.b, memo)) {
                        (Some(false), _) | (_, Some(false)) => Some(false),
                        (Some(true), Some(true)) => Some(true),
                        _ => None,
                    },
                    K::Or if n.w == 1 => match (self.tri(st, n.a, memo), self.tri(st, n.b, memo)) {
                        (Some(true), _) | (_, Some(true)) => Some(true),
                        (Some(false), Some(false)) => Some(false),
                        _ => None,
                    },
                    K::Xor if n.w == 1 => match (self.tri(st, n.a, memo), self.tri(st, n.b, memo)) {
                        (Some(x), Some(y)) => Some(x != y),
                        _ => None,
                    },
                    K::Ite if n.w == 1 => match self.tri(st, n.a, memo) {
                        Some(true) => self.tri(st, n.b, memo),
                        Some(false) => self.tri(st, n.c, memo),
                        None => match (self.tri(st, n.b, memo), self.tri(st, n.c, memo)) {
                            (Some(x), Some(y)) if x == y => Some(x),
                            _ => None,
                        },
                    },
                    K::Eq | K::Ult | K::Ule => {
                        let a = self.range(st, n.a, 6);
                        let b = self.range(st, n.b, 6);
                        match n.k {
                            K::Eq if a.1 < b.0 || b.1 < a.0 => Some(false),
                            K::Eq if a.0 == a.1 && a == b => Some(true),
                            K::Eq => None,
                            K::Ult if a.1 < b.0 => Some(true),
                            K::Ult if a.0 >= b.1 => Some(false),
                            K::Ule if a.1 <= b.0 => Some(true),
                            K::Ule if a.0 > b.1 => Some(false),
                            _ => None,
                        }
                    }
                    _ => None,
                }
            }
        };
        memo.insert(e, r);
        r
    }

    fn known_val(&mut self, st: &State, e: Id) -> Option<u128> {
        if let Some(c) = self.ar.as_const(e) {
            return Some(c);
        }
        if let Some(v) = st.known.get(&e) {
            return Some(*v);
        }
        if let Sup::One(v) = self.ar.sup[e as usize] {
            let d = self.dom_of(st, v);
            let cnt: u32 = d.iter().map(|x| x.count_ones()).sum();
            if cnt == 1 {
                let i = (0..4).find(|i| d[*i] != 0).unwrap();
                let x = i as u64 * 64 + d[i].trailing_zeros() as u64;
                let mut memo = HashMap::new();
                return Some(self.ar.eval(e, &|_| x, &mut memo));
            }
        }
        None
    }

    fn eval_model(&self, st: &State, e: Id) -> u128 {
        let m = &st.model;
        let mut memo = HashMap::new();
        self.ar.eval(e, &|v| *m.get(v as usize).unwrap_or(&0), &mut memo)
    }

    fn add_con(&mut self, st: &mut State, c: Id) {
        if self.ar.as_const(c).is_some() {
            return;
        }
        let n = self.ar.nodes[c as usize];
        if n.k == K::And && n.w == 1 {
            self.add_con(st, n.a);
            self.add_con(st, n.b);
            return;
        }
        if n.k == K::Xor && self.ar.as_const(n.b) == Some(1) {
            let m = self.ar.nodes[n.a as usize];
            if m.k == K::Or && m.w == 1 {
                let a = self.ar.not1(m.a);
                let b = self.ar.not1(m.b);
                self.add_con(st, a);
                self.add_con(st, b);
                return;
            }
        }
        match self.ar.sup[c as usize] {
            Sup::One(v) => {
                let s = self.ar.set256(c);
                let mut d = self.dom_of(st, v);
                for i in 0..4 {
                    d[i] &= s[i];
                }
                Rc::make_mut(&mut st.dom).insert(v, d);
            }
            _ => {
                // x == const becomes known
                if n.k == K::Eq {
                    if let Some(v) = self.ar.as_const(n.b) {
                        Rc::make_mut(&mut st.known).insert(n.a, v);
                    }
                }
                let nc = self.ar.not1(c);
                let k = Rc::make_mut(&mut st.known);
                k.insert(c, 1);
                k.insert(nc, 0);
                let vs = self.ar.vars(c);
                Rc::make_mut(&mut st.linked).extend(vs.iter());
                Rc::make_mut(&mut st.cons).push(c);
            }
        }
    }

    /// Satisfiability of path condition and `c`, by z3 on the connected slice.
    fn query(&mut self, st: &State, c: Id) -> Res {
        let mut vs: BTreeSet<u32> = self.ar.vars(c).iter().copied().collect();
        let mut cons: BTreeSet<Id> = BTreeSet::new();
        cons.insert(c);
        if st.cons.len() > 0 {
            let all: Vec<(Id, Rc<Vec<u32>>)> = st.cons.iter().map(|x| (*x, self.ar.vars(*x))).collect();
            loop {
                let mut ch = false;
                for (x, xv) in &all {
                    if !cons.contains(x) && xv.iter().any(|v| vs.contains(v)) {
                        cons.insert(*x);
                        vs.extend(xv.iter());
                        ch = true;
                    }
                }
                if !ch {
                    break;
                }
            }
        }
        let doms: Vec<(u32, Set256)> = vs.iter().filter_map(|v| st.dom.get(v).map(|s| (*v, *s))).collect();
        let key = (cons.iter().copied().collect::<Vec<_>>(), doms);
        if let Some(r) = self.qcache.get(&key) {
            self.z.st.cache_hits += 1;
            return match r {
                Some(m) => Res::Sat(m.clone()),
                None => Res::Unsat,
            };
        }
        let vsv: Vec<u32> = vs.into_iter().collect();
        let t0 = std::time::Instant::now();
        let r = self.z.check(&self.ar, &key.0, &key.1, &vsv);
        if self.slow > 0.0 && t0.elapsed().as_secs_f64() > self.slow {
            eprintln!(
                "SLOW {:.2}s cons={} vars={} stack={:?}\n   {}",
                t0.elapsed().as_secs_f64(),
                key.0.len(),
                vsv.len(),
                self.backtrace(st).into_iter().take(4).collect::<Vec<_>>(),
                self.ar.show(c, 12)
            );
            for k in &key.0 {
                eprintln!("      {}", self.ar.show(*k, 8));
            }
        }
        match &r {
            Res::Sat(m) => {
                self.qcache.insert(key, Some(m.clone()));
            }
            Res::Unsat => {
                self.qcache.insert(key, None);
            }
            Res::Unknown => {}
        }
        r
    }

    /// Find a model of the path condition with `c` (None: infeasible).
    fn feasible(&mut self, st: &State, c: Id) -> Result<Option<Rc<Vec<u64>>>, ()> {
        if let Some(k) = self.ar.as_const(c) {
            return Ok(if k == 1 { Some(st.model.clone()) } else { None });
        }
        if let Sup::One(v) = self.ar.sup[c as usize] {
            if !st.linked.contains(&v) {
                let s = self.ar.set256(c);
                let d = self.dom_of(st, v);
                self.z.st.dom_decided += 1;
                self.domctr += 1;
                let mut pick = None;
                let start = (hash64(self.domctr) % 4) as usize;
                for j in 0..4 {
                    let i = (start + j) % 4;
                    let x = s[i] & d[i];
                    if x != 0 {
                        pick = Some(i as u64 * 64 + x.trailing_zeros() as u64);
                        break;
                    }
                }
                if self.lim.xcheck > 0 && self.domctr % self.lim.xcheck == 0 {
                    let r = self.query(st, c);
                    self.z.st.xchecked += 1;
                    let same = match r {
                        Res::Sat(_) => pick.is_some(),
                        Res::Unsat => pick.is_none(),
                        Res::Unknown => true,
                    };
                    assert!(same, "domain decision disagrees with z3");
                }
                return Ok(pick.map(|x| {
                    let mut m = (*st.model).clone();
                    set_model(&mut m, v, x);
                    Rc::new(m)
                }));
            }
        }
        match self.query(st, c) {
            Res::Sat(a) => {
                let mut m = (*st.model).clone();
                for (v, x) in a {
                    set_model(&mut m, v, x);
                }
                Ok(Some(Rc::new(m)))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => Err(()),
        }
    }

    fn loc(&self, st: &State) -> u32 {
        (hash64((st.top.func as u64) << 40 | (st.top.block as u64) << 20 | st.top.ip as u64) >> 32) as u32
    }
    fn push_trail(&mut self, st: &mut State, loc: u32, choice: u64) {
        st.trail = Some(Rc::new(TrailNode { loc, choice, prev: st.trail.take() }));
        st.ntrail += 1;
    }

    fn implied(&mut self, st: &mut State, c: Id) {
        let nc = self.ar.not1(c);
        let k = Rc::make_mut(&mut st.known);
        k.insert(c, 1);
        k.insert(nc, 0);
    }

    /// Value of `e` if the path determines it.
    fn pval(&mut self, st: &State, e: Id, memo: &mut HashMap<Id, Option<u128>>) -> Option<u128> {
        if let Some(c) = self.ar.as_const(e) {
            return Some(c);
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let mut r = self.known_val(st, e);
        if r.is_none() && self.ar.sup[e as usize] == Sup::Many {
            let n = self.ar.nodes[e as usize];
            let nc = n.k.children();
            let mut ok = nc > 0;
            let mut ks = [0u128; 3];
            for i in 0..nc {
                let ch = [n.a, n.b, n.c][i];
                match self.pval(st, ch, memo) {
                    Some(v) => ks[i] = v,
                    None => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                r = Some(self.ar.eval1(e, ks));
            }
        }
        memo.insert(e, r);
        r
    }

    /// Single-variable subterms whose values determine `e` and are still open.
    fn open_parts(&mut self, st: &State, e: Id, out: &mut Vec<Id>, seen: &mut HashSet<Id>) -> bool {
        if !seen.insert(e) {
            return true;
        }
        if self.known_val(st, e).is_some() {
            return true;
        }
        match self.ar.sup[e as usize] {
            Sup::One(_) => {
                out.push(e);
                true
            }
            _ => {
                let n = self.ar.nodes[e as usize];
                if n.k == K::Var || seen.len() > 200 {
                    return false;
                }
                for i in 0..n.k.children() {
                    if !self.open_parts(st, [n.a, n.b, n.c][i], out, seen) {
                        return false;
                    }
                }
                true
            }
        }
    }

    /// Unsigned bounds of an expression under the variable domains.
    fn range(&mut self, st: &State, e: Id, depth: u32) -> (u128, u128) {
        let w = self.ar.w(e);
        let top = (0, mask(w));
        if let Some(c) = self.known_val(st, e) {
            return (c, c);
        }
        if let Sup::One(v) = self.ar.sup[e as usize] {
            let d = self.dom_of(st, v);
            let n = 1usize << self.ar.var_w[v as usize];
            let key = (e, d);
            if let Some(r) = self.rcache.get(&key) {
                return *r;
            }
            let mut memo = HashMap::new();
            self.ar.eval_all(e, n, &mut memo);
            let r = &memo[&e];
            let (mut lo, mut hi) = (u128::MAX, 0);
            for i in 0..n {
                if d[i / 64] >> (i % 64) & 1 == 1 {
                    lo = lo.min(r[i]);
                    hi = hi.max(r[i]);
                }
            }
            self.rcache.insert(key, (lo, hi));
            return (lo, hi);
        }
        if depth == 0 {
            return top;
        }
        let n = self.ar.nodes[e as usize];
        match n.k {
            K::Add => {
                let a = self.range(st, n.a, depth - 1);
                let b = self.range(st, n.b, depth - 1);
                match a.1.checked_add(b.1) {
                    Some(h) if h <= mask(w) => (a.0 + b.0, h),
                    _ => top,
                }
            }
            K::Mul => {
                let a = self.range(st, n.a, depth - 1);
                let b = self.range(st, n.b, depth - 1);
                match a.1.checked_mul(b.1) {
                    Some(h) if h <= mask(w) => (a.0 * b.0, h),
                    _ => top,
                }
            }
            K::ZExt => self.range(st, n.a, depth - 1),
            K::And => {
                let a = self.range(st, n.a, depth - 1);
                let b = self.range(st, n.b, depth - 1);
                (0, a.1.min(b.1))
            }
            K::Or => {
                let a = self.range(st, n.a, depth - 1);
                let b = self.range(st, n.b, depth - 1);
                let m = a.1 | b.1;
                let h = if m == 0 { 0 } else { u128::MAX >> m.leading_zeros() };
                (a.0.max(b.0), h)
            }
            K::Concat => {
                let lw = self.ar.w(n.b);
                let a = self.range(st, n.a, depth - 1);
                let b = self.range(st, n.b, depth - 1);
                (a.0 << lw | b.0, a.1 << lw | b.1)
            }
            K::Ite => {
                let a = self.range(st, n.b, depth - 1);
                let b = self.range(st, n.c, depth - 1);
                (a.0.min(b.0), a.1.max(b.1))
            }
            _ => top,
        }
    }

    /// Decide a Boolean; may fork.
    fn decide(&mut self, st: &mut State, c: Id) -> Ex<bool> {
        if let Some(k) = self.ar.as_const(c) {
            return Ok(k == 1);
        }
        let mut memo = HashMap::new();
        if let Some(b) = self.tri(st, c, &mut memo) {
            return Ok(b);
        }
        self.st.decisions += 1;
        let nc = self.ar.not1(c);
        let loc = self.loc(st);
        if self.rpos < self.replay.len() {
            let (l, ch) = self.replay[self.rpos];
            if l != loc {
                if self.slow > 0.0 { eprintln!("DIV {} {} of {} {:?} e={} {:?} dom={:?}", ["decide","conc"][0], self.rpos, self.replay.len(), self.backtrace(st).into_iter().take(2).collect::<Vec<_>>(), self.ar.show(c, 5), self.replay[self.rpos], st.dom); }
                return  Err(Stop::Incomplete("replay divergence".into()));
            }
            self.rpos += 1;
            let b = ch & 1 == 1;
            self.push_trail(st, loc, ch);
            if ch & 2 == 0 {
                self.add_con(st, if b { c } else { nc });
            } else {
                self.implied(st, if b { c } else { nc });
            }
            return Ok(b);
        }
        let mv = self.eval_model(st, c) == 1;
        let other = if mv { nc } else { c };
        match self.feasible(st, other) {
            Err(()) => {
                *self.st.incomplete.entry("solver timeout on a branch".into()).or_default() += 1;
            }
            Ok(None) => {
                // implied by the path condition: nothing to add
                self.push_trail(st, loc, mv as u64 | 2);
                self.implied(st, if mv { c } else { nc });
                return Ok(mv);
            }
            Ok(Some(m)) => {
                let mut o = st.clone();
                o.model = m;
                self.push_trail(&mut o, loc, !mv as u64);
                self.add_con(&mut o, other);
                self.st.forks += 1;
                self.work.push_back(o);
            }
        }
        self.push_trail(st, loc, mv as u64);
        self.add_con(st, if mv { c } else { nc });
        Ok(mv)
    }

    /// One concrete value for an expression; forks for the others.
    fn concretize(&mut self, st: &mut State, e: Id) -> Ex<u128> {
        if let Some(k) = self.known_val(st, e) {
            return Ok(k);
        }
        let w = self.ar.w(e);
        if w == 1 {
            return Ok(self.decide(st, e)? as u128);
        }
        let loc = self.loc(st) ^ 0x5555;
        if self.ar.sup[e as usize] == Sup::Many {
            // fix the single-variable parts one after another if they determine the value
            let mut parts = vec![];
            if self.open_parts(st, e, &mut parts, &mut HashSet::new()) && parts.len() <= 3 {
                for q in parts {
                    self.concretize(st, q)?;
                }
                let v = self.pval(st, e, &mut HashMap::new());
                if let Some(v) = v {
                    Rc::make_mut(&mut st.known).insert(e, v);
                    return Ok(v);
                }
            }
        }
        self.st.decisions += 1;
        if self.rpos < self.replay.len() {
            let (l, ch) = self.replay[self.rpos];
            if l != loc {
                if self.slow > 0.0 { eprintln!("DIV {} {} of {} {:?} e={} {:?} dom={:?}", ["decide","conc"][1], self.rpos, self.replay.len(), self.backtrace(st).into_iter().take(2).collect::<Vec<_>>(), self.ar.show(e, 5), self.replay[self.rpos], st.dom); }
                return  Err(Stop::Incomplete("replay divergence".into()));
            }
            self.rpos += 1;
            self.push_trail(st, loc, ch);
            let k = self.ar.konst(ch as u128, w);
            let c = self.ar.eq(e, k);
            if self.slow > 0.0 {
                let mut memo = HashMap::new();
                if self.ar.as_const(c) == Some(0) || self.tri(st, c, &mut memo) == Some(false) { eprintln!("BAD choice {} for {} {:?}", ch, self.ar.show(e, 8), self.backtrace(st).into_iter().take(2).collect::<Vec<_>>()); }
            }
            self.add_con(st, c);
            Rc::make_mut(&mut st.known).insert(e, ch as u128);
            return Ok(ch as u128);
        }
        let mine = self.eval_model(st, e);
        let mut vals: Vec<(u128, Rc<Vec<u64>>)> = vec![];
        let one = match self.ar.sup[e as usize] {
            Sup::One(v) if !st.linked.contains(&v) => Some(v),
            _ => None,
        };
        if let Some(v) = one {
            let d = self.dom_of(st, v);
            let n = 1usize << self.ar.var_w[v as usize];
            let mut memo = HashMap::new();
            self.ar.eval_all(e, n, &mut memo);
            let r = &memo[&e];
            let mut seen = HashSet::new();
            self.z.st.dom_decided += 1;
            for i in 0..n {
                if d[i / 64] >> (i % 64) & 1 == 1 && r[i] != mine && seen.insert(r[i]) {
                    let mut m = (*st.model).clone();
                    set_model(&mut m, v, i as u64);
                    vals.push((r[i], Rc::new(m)));
                }
            }
            if vals.len() < 32 {
                // that there is no further value is for the solver to say
                let k = self.ar.konst(mine, w);
                let eq = self.ar.eq(e, k);
                let mut c = self.ar.not1(eq);
                for (x, _) in &vals {
                    let k = self.ar.konst(*x, w);
                    let eq = self.ar.eq(e, k);
                    let ne = self.ar.not1(eq);
                    c = self.ar.and1(c, ne);
                }
                self.z.st.xchecked += 1;
                if let Res::Sat(_) = self.query(st, c) {
                    panic!("values enumerated by domain are not all");
                }
            }
        } else {
            let k = self.ar.konst(mine, w);
            let eq = self.ar.eq(e, k);
            let mut c = self.ar.not1(eq);
            loop {
                match self.feasible(st, c) {
                    Err(()) => {
                        *self.st.incomplete.entry("solver timeout enumerating values".into()).or_default() += 1;
                        break;
                    }
                    Ok(None) => break,
                    Ok(Some(m)) => {
                        let mut memo = HashMap::new();
                        let v = self.ar.eval(e, &|x| *m.get(x as usize).unwrap_or(&0), &mut memo);
                        let k = self.ar.konst(v, w);
                        let eq = self.ar.eq(e, k);
                        let ne = self.ar.not1(eq);
                        c = self.ar.and1(c, ne);
                        vals.push((v, m));
                        if Instant::now() > self.deadline {
                            *self.st.incomplete.entry("time budget: unexplored values".into()).or_default() += 1;
                            break;
                        }
                        if vals.len() > self.lim.conc_limit {
                            let f = self.p.m.funcs[st.top.func as usize].name.clone();
                            *self
                                .st
                                .incomplete
                                .entry(format!("more than {} values for an address or size in {}", self.lim.conc_limit, f))
                                .or_default() += 1;
                            break;
                        }
                    }
                }
            }
        }
        for (v, m) in vals {
            let mut o = st.clone();
            o.model = m;
            let k = self.ar.konst(v, w);
            let c = self.ar.eq(e, k);
            self.push_trail(&mut o, loc, v as u64);
            self.add_con(&mut o, c);
            Rc::make_mut(&mut o.known).insert(e, v);
            if self.slow == 9.5 { eprintln!("CH {} {}", v, self.ar.show(e, 8)); }
            self.st.forks += 1;
            self.work.push_back(o);
        }
        let k = self.ar.konst(mine, w);
        let c = self.ar.eq(e, k);
        self.push_trail(st, loc, mine as u64);
        self.add_con(st, c);
        Rc::make_mut(&mut st.known).insert(e, mine);
        Ok(mine)
    }

    /// One value of an operand the engine has no symbolic meaning for: the model's. The others are
    /// left out, and counted as such.
    fn pin(&mut self, st: &mut State, v: &Val, why: &str) -> Ex<Val> {
        let e = match v {
            Val::C(_) => return Ok(v.clone()),
            Val::S(e) => *e,
            Val::A(x) => {
                let mut r = vec![];
                for e in x.iter() {
                    r.push(self.pin(st, e, why)?);
                }
                return Ok(Val::A(Arc::new(r)));
            }
        };
        if let Some(k) = self.known_val(st, e) {
            return Ok(Val::C(k));
        }
        let w = self.ar.w(e);
        let loc = self.loc(st) ^ 0x3a3a;
        self.st.decisions += 1;
        let mine = if self.rpos < self.replay.len() {
            let (l, ch) = self.replay[self.rpos];
            if l != loc {
                return Err(Stop::Incomplete("replay divergence".into()));
            }
            self.rpos += 1;
            ch as u128
        } else {
            *self.st.incomplete.entry(format!("one value only: {}", why)).or_default() += 1;
            self.eval_model(st, e)
        };
        if w > 64 && mine > u64::MAX as u128 {
            return Err(Stop::Unsup(why.into()));
        }
        self.push_trail(st, loc, mine as u64);
        let k = self.ar.konst(mine, w);
        let c = self.ar.eq(e, k);
        self.add_con(st, c);
        Rc::make_mut(&mut st.known).insert(e, mine);
        Ok(Val::C(mine))
    }

    fn conc(&mut self, st: &mut State, v: &Val) -> Ex<u128> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => self.concretize(st, *e),
            Val::A(_) => Err(Stop::Unsup("aggregate as scalar".into())),
        }
    }

    // ------------------------------------------------------ values

    #[inline]
    fn get(&self, st: &State, o: &Op) -> Val {
        match o {
            Op::K(v) => v.clone(),
            Op::R(r) => st.top.regs[*r as usize].clone(),
        }
    }
    fn ex(&mut self, v: &Val, w: u32) -> Id {
        match v {
            Val::C(c) => self.ar.konst(*c, w),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate"),
        }
    }
    fn mkv(&self, e: Id) -> Val {
        match self.ar.as_const(e) {
            Some(c) => Val::C(c),
            None => Val::S(e),
        }
    }

    // ------------------------------------------------------ memory

    fn resolve(&self, st: &State, addr: u128, n: u64) -> Ex<(u32, usize)> {
        let a = addr as u64;
        let id = (a >> OBJ_SHIFT) as u32;
        let off = (a & ((1 << OBJ_SHIFT) - 1)) as usize;
        if a >> (OBJ_SHIFT + 28) == 0 {
            if let Some(o) = st.mem.get(id) {
                if off as u64 + n <= o.b.len() as u64 {
                    return Ok((id, off));
                }
            }
        }
        Err(Stop::Cand("memory".into(), format!("access of {} bytes outside any object", n)))
    }

    fn load_bytes(&mut self, st: &State, id: u32, off: usize, bits: u32) -> Val {
        let o = st.mem.get(id).unwrap().clone();
        let n = ((bits + 7) / 8) as usize;
        if o.s.is_empty() || o.s[off..off + n].iter().all(|x| *x == 0) {
            let mut v = 0u128;
            for i in (0..n).rev() {
                v = v << 8 | o.b[off + i] as u128;
            }
            return Val::C(v & mask(bits));
        }
        let mut e: Option<Id> = None;
        for i in 0..n {
            let b = if o.s[off + i] != 0 { o.s[off + i] } else { self.ar.konst(o.b[off + i] as u128, 8) };
            e = Some(match e {
                None => b,
                Some(l) => self.ar.concat(b, l),
            });
        }
        let mut e = e.unwrap();
        if self.ar.w(e) > bits {
            e = self.ar.extract(bits - 1, 0, e);
        }
        self.mkv(e)
    }

    fn load_ty(&mut self, st: &mut State, addr: u128, ty: &Ty) -> Ex<Val> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                if let Ty::Vec(n, t) = ty {
                    if matches!(**t, Ty::Int(1)) {
                        return Err(Stop::Unsup(format!("load of <{} x i1>", n)));
                    }
                }
                let mut v = vec![];
                for i in 0..ty.num_fields() {
                    let (o, t) = ty.field(i);
                    v.push(self.load_ty(st, addr + o as u128, &t)?);
                }
                Ok(Val::A(Arc::new(v)))
            }
            _ => {
                let n = ty.store_bytes();
                let (id, off) = self.resolve(st, addr, n)?;
                Ok(self.load_bytes(st, id, off, ty.bits()))
            }
        }
    }

    fn store_ty(&mut self, st: &mut State, addr: u128, ty: &Ty, v: &Val) -> Ex<()> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                if let Val::A(x) = v {
                    for i in 0..ty.num_fields() {
                        let (o, t) = ty.field(i);
                        self.store_ty(st, addr + o as u128, &t, &x[i as usize])?;
                    }
                    Ok(())
                } else {
                    Err(Stop::Unsup("store scalar as aggregate".into()))
                }
            }
            _ => {
                let n = ty.store_bytes() as usize;
                let (id, off) = self.resolve(st, addr, n as u64)?;
                let o = st.mem.get_mut(id).unwrap();
                if o.ro {
                    return Err(Stop::Cand("memory".into(), "write to constant data".into()));
                }
                match v {
                    Val::C(c) => {
                        for i in 0..n {
                            o.b[off + i] = (*c >> (8 * i)) as u8;
                        }
                        if !o.s.is_empty() {
                            for i in 0..n {
                                o.s[off + i] = 0;
                            }
                        }
                    }
                    Val::S(e) => {
                        let e = self.ar.zext(*e, n as u32 * 8);
                        let mut parts = Vec::with_capacity(n);
                        for i in 0..n {
                            parts.push(self.ar.extract(8 * i as u32 + 7, 8 * i as u32, e));
                        }
                        let o = st.mem.get_mut(id).unwrap();
                        if o.s.is_empty() {
                            o.s = vec![0; o.b.len()];
                        }
                        for (i, p) in parts.iter().enumerate() {
                            match self.ar.as_const(*p) {
                                Some(c) => {
                                    o.b[off + i] = c as u8;
                                    o.s[off + i] = 0;
                                }
                                None => {
                                    o.b[off + i] = 0;
                                    o.s[off + i] = *p;
                                }
                            }
                        }
                    }
                    Val::A(_) => return Err(Stop::Unsup("store aggregate as scalar".into())),
                }
                Ok(())
            }
        }
    }

    fn byte_at(&mut self, st: &State, id: u32, off: usize) -> Id {
        let o = st.mem.get(id).unwrap();
        if !o.s.is_empty() && o.s[off] != 0 {
            o.s[off]
        } else {
            let b = o.b[off];
            self.ar.konst(b as u128, 8)
        }
    }

    fn copy(&mut self, st: &mut State, d: u128, s: u128, n: u64) -> Ex<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.resolve(st, s, n)?;
        let (di, d_o) = self.resolve(st, d, n)?;
        let n = n as usize;
        let src = st.mem.get(si).unwrap().clone();
        let dst = st.mem.get_mut(di).unwrap();
        if dst.ro {
            return Err(Stop::Cand("memory".into(), "write to constant data".into()));
        }
        dst.b[d_o..d_o + n].copy_from_slice(&src.b[so..so + n]);
        if !src.s.is_empty() && src.s[so..so + n].iter().any(|x| *x != 0) {
            if dst.s.is_empty() {
                dst.s = vec![0; dst.b.len()];
            }
            dst.s[d_o..d_o + n].copy_from_slice(&src.s[so..so + n]);
        } else if !dst.s.is_empty() {
            for x in &mut dst.s[d_o..d_o + n] {
                *x = 0;
            }
        }
        Ok(())
    }

    /// Load through a symbolic pointer.
    fn load_sym(&mut self, st: &mut State, pe: Id, ty: &Ty) -> Ex<Val> {
        if let Some(a) = self.known_val(st, pe) {
            return self.load_ty(st, a, ty);
        }
        let scalar = !matches!(ty, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..)) && ty.bits() <= 64;
        if let (Sup::One(v), true) = (self.ar.sup[pe as usize], scalar) {
            let d = self.dom_of(st, v);
            let vw = self.ar.var_w[v as usize];
            let n = 1usize << vw;
            let mut memo = HashMap::new();
            self.ar.eval_all(pe, n, &mut memo);
            let addrs = &memo[&pe];
            let mut t = [0u64; 256];
            let mut ok = true;
            for i in 0..n {
                if d[i / 64] >> (i % 64) & 1 == 0 {
                    continue;
                }
                match self.resolve(st, addrs[i], ty.store_bytes()) {
                    Ok((id, off)) => match self.load_bytes(st, id, off, ty.bits()) {
                        Val::C(c) => t[i] = c as u64,
                        _ => {
                            ok = false;
                            break;
                        }
                    },
                    Err(_) => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                let ve = self.ar.var(v, vw);
                let e = self.ar.lut(ve, t, ty.bits());
                return Ok(self.mkv(e));
            }
        }
        let a = self.concretize(st, pe)?;
        self.load_ty(st, a, ty)
    }

    fn alloc(&mut self, st: &mut State, size: &Val) -> Ex<u128> {
        if let Val::S(e) = size {
            let w = self.ar.w(*e);
            let l = self.ar.konst(st.limit as u128, w);
            let big = self.ar.icmp(Pred::Ugt, *e, l);
            if self.decide(st, big)? {
                return Err(Stop::Cand("alloc".into(), "allocation out of proportion".into()));
            }
        }
        let n = self.conc(st, size)? as u64;
        if n > st.limit {
            return Err(Stop::Cand("alloc".into(), "allocation out of proportion".into()));
        }
        st.live += n;
        st.peak = st.peak.max(st.live);
        if st.live > st.total_limit {
            return Err(Stop::Cand("alloc".into(), "total live memory out of proportion".into()));
        }
        let id = st.mem.alloc(n);
        Ok((id as u128) << OBJ_SHIFT)
    }
    fn free(&mut self, st: &mut State, p: u128) -> Ex<()> {
        if p == 0 {
            return Ok(());
        }
        let (id, off) = self.resolve(st, p, 0)?;
        if off != 0 || id < self.p.first_free {
            return Err(Stop::Cand("memory".into(), "bad free".into()));
        }
        let n = st.mem.get(id).unwrap().b.len() as u64;
        st.live -= n;
        st.mem.release(id);
        Ok(())
    }

    // ------------------------------------------------------ driver

    fn drive(&mut self, st: &mut State) -> Stop {
        let p = self.p;
        let mut tick = 0u32;
        loop {
            let f = &p.m.funcs[st.top.func as usize];
            let ins = &f.blocks[st.top.block as usize].ins[st.top.ip as usize];
            st.steps += 1;
            tick += 1;
            if tick & 0xffff == 0 {
                if st.steps > self.lim.max_steps * st.patience {
                    let n = self.lim.max_steps * st.patience;
                    return Stop::Cand("hang".into(), format!("more than {} steps", n));
                }
                if Instant::now() > self.deadline + Duration::from_secs(5) {
                    return Stop::Incomplete("time budget: path cut short".into());
                }
            }
            match self.step(st, ins) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let p = self.p;
        let f = &p.m.funcs[st.top.func as usize];
        let b = &f.blocks[to as usize];
        let from = st.top.block;
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, v) = &b.phis[0];
                let o = v.iter().find(|x| x.0 == from).map(|x| &x.1).expect("phi");
                let x = self.get(st, o);
                st.top.regs[*d as usize] = x;
            } else {
                let vals: Vec<Val> = b
                    .phis
                    .iter()
                    .map(|(_, v)| {
                        let o = v.iter().find(|x| x.0 == from).map(|x| &x.1).expect("phi");
                        self.get(st, o)
                    })
                    .collect();
                for ((d, _), v) in b.phis.iter().zip(vals) {
                    st.top.regs[*d as usize] = v;
                }
            }
        }
        st.top.block = to;
        st.top.ip = 0;
    }

    /// Finish a call-like instruction with a value.
    fn fin(&mut self, st: &mut State, ins: &Ins, v: Option<Val>) {
        if ins.dst != NONE {
            st.top.regs[ins.dst as usize] = v.unwrap_or(Val::C(0));
        }
        if ins.normal != NONE {
            self.jump(st, ins.normal);
        } else {
            st.top.ip += 1;
        }
    }

    fn enter(&mut self, st: &mut State, func: u32, args: Vec<Val>, dst: u32, normal: u32) -> Ex<()> {
        let p = self.p;
        let f = &p.m.funcs[func as usize];
        if st.stack.len() > 4000 {
            return Err(Stop::Cand("stack".into(), "call depth over 4000".into()));
        }
        if f.blocks.is_empty() {
            return Err(Stop::Unsup(format!("call of undefined {}", f.name)));
        }
        if p.fi[func as usize].is_target {
            self.funcs_hit.insert(func);
        }
        let mut fr = self.new_frame(func, dst, normal);
        for ((_, r), v) in f.params.iter().zip(args) {
            fr.regs[*r as usize] = v;
        }
        let old = std::mem::replace(&mut st.top, fr);
        st.stack.push(Rc::new(old));
        Ok(())
    }

    fn step(&mut self, st: &mut State, ins: &'p Ins) -> Ex<()> {
        macro_rules! set {
            ($v:expr) => {{
                let v = $v;
                st.top.regs[ins.dst as usize] = v;
                st.top.ip += 1;
                Ok(())
            }};
        }
        match &ins.i {
            I::Bin { op, ty, a, b } => {
                let (mut x, mut y) = (self.get(st, a), self.get(st, b));
                if wide_ty(ty) {
                    x = self.pin(st, &x, "wide integer")?;
                    y = self.pin(st, &y, "wide integer")?;
                    let v = wide_bin(*op, ty.bits(), &x, &y).ok_or(Stop::Unsup("wide integer".into()))?;
                    return set!(v);
                }
                if *op == Bin::FRem {
                    x = self.pin(st, &x, "float remainder")?;
                    y = self.pin(st, &y, "float remainder")?;
                }
                let v = self.binop(st, *op, ty, &x, &y)?;
                set!(v)
            }
            I::Icmp { p, ty, a, b } => {
                let (mut x, mut y) = (self.get(st, a), self.get(st, b));
                if wide_ty(ty) {
                    x = self.pin(st, &x, "wide integer")?;
                    y = self.pin(st, &y, "wide integer")?;
                    let v = wide_cmp(*p, ty.bits(), &x, &y);
                    return set!(Val::C(v as u128));
                }
                let v = self.icmp(*p, ty, &x, &y)?;
                set!(v)
            }
            I::Fcmp { p, ty, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = self.fcmp(p, ty, &x, &y)?;
                set!(v)
            }
            I::FNeg { ty, a } => {
                let x = self.get(st, a);
                let w = ty.bits();
                let e = self.ex(&x, w);
                let s = self.ar.konst(1u128 << (w - 1), w);
                let r = self.ar.xor(e, s);
                set!(self.mkv(r))
            }
            I::Cast { c, from, to, a } => {
                let mut x = self.get(st, a);
                if wide_ty(from) || wide_ty(to) {
                    x = self.pin(st, &x, "wide integer")?;
                    let v = wide_cast(*c, from.bits(), to.bits(), &x).ok_or(Stop::Unsup("wide integer".into()))?;
                    return set!(v);
                }
                let v = self.cast(*c, from, to, &x)?;
                set!(v)
            }
            I::Select { cty, ty, c, a, b } => {
                let cv = self.get(st, c);
                let (x, y) = (self.get(st, a), self.get(st, b));
                if let Val::A(cs) = &cv {
                    let (xs, ys) = match (&x, &y) {
                        (Val::A(p), Val::A(q)) => (p.clone(), q.clone()),
                        _ => return Err(Stop::Unsup("vector select".into())),
                    };
                    let (_, et) = ty.field(0);
                    let _ = cty;
                    let mut r = vec![];
                    for i in 0..cs.len() {
                        r.push(self.sel(&cs[i], &et, &xs[i], &ys[i])?);
                    }
                    return set!(Val::A(Arc::new(r)));
                }
                match cv {
                    Val::C(k) => set!(if k & 1 == 1 { x } else { y }),
                    Val::S(e) => {
                        let agg = matches!(ty, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..)) || *ty == Ty::Ptr;
                        if agg {
                            let k = self.decide(st, e)?;
                            set!(if k { x } else { y })
                        } else {
                            let mut memo = HashMap::new();
                            match self.tri(st, e, &mut memo) {
                                Some(k) => set!(if k { x } else { y }),
                                None => {
                                    let v = self.sel(&Val::S(e), ty, &x, &y)?;
                                    set!(v)
                                }
                            }
                        }
                    }
                    _ => unreachable!(),
                }
            }
            I::Load { ty, p } => {
                let a = self.get(st, p);
                let v = match a {
                    Val::C(a) => self.load_ty(st, a, ty)?,
                    Val::S(e) => self.load_sym(st, e, ty)?,
                    _ => return Err(Stop::Unsup("load".into())),
                };
                set!(v)
            }
            I::Store { ty, v, p } => {
                let a = self.get(st, p);
                let a = self.conc(st, &a)?;
                let v = self.get(st, v);
                self.store_ty(st, a, ty, &v)?;
                st.top.ip += 1;
                Ok(())
            }
            I::Gep { base, off, terms } => {
                let b = self.get(st, base);
                let mut c = match &b {
                    Val::C(x) => *x as u64,
                    _ => 0,
                }
                .wrapping_add(*off);
                let mut se: Option<Id> = match &b {
                    Val::S(e) => Some(*e),
                    Val::A(_) => return Err(Stop::Unsup("vector gep".into())),
                    _ => None,
                };
                for (o, w, sz) in terms {
                    match self.get(st, o) {
                        Val::C(x) => c = c.wrapping_add((sext(x, *w) as i64 as u64).wrapping_mul(*sz)),
                        Val::S(e) => {
                            let e = if *w < 64 { self.ar.sext(e, 64) } else { e };
                            let k = self.ar.konst(*sz as u128, 64);
                            let t = self.ar.bin(Bin::Mul, e, k);
                            se = Some(match se {
                                None => t,
                                Some(p) => self.ar.bin(Bin::Add, p, t),
                            });
                        }
                        _ => return Err(Stop::Unsup("vector gep".into())),
                    }
                }
                let v = match se {
                    None => Val::C(c as u128),
                    Some(e) => {
                        let k = self.ar.konst(c as u128, 64);
                        let r = self.ar.bin(Bin::Add, e, k);
                        self.mkv(r)
                    }
                };
                set!(v)
            }
            I::Alloca { size, count } => {
                if let Some(c) = count {
                    if !matches!(c, Op::K(Val::C(1))) {
                        return Err(Stop::Unsup(format!("dynamic alloca {}", size)));
                    }
                }
                let fi = &self.p.fi[st.top.func as usize];
                if st.top.stk == 0 {
                    st.top.stk = st.mem.alloc(fi.alloca_total);
                }
                let off = *fi
                    .alloca_off
                    .get(&(st.top.block, st.top.ip))
                    .ok_or(Stop::Unsup("alloca".into()))?;
                let v = ((st.top.stk as u128) << OBJ_SHIFT) + off as u128;
                set!(Val::C(v))
            }
            I::Call { callee, args, .. } => self.call(st, ins, callee, args),
            I::Extract { a, idx } => {
                let mut v = self.get(st, a);
                for i in idx {
                    v = match v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => return Err(Stop::Unsup("extractvalue".into())),
                    };
                }
                set!(v)
            }
            I::Insert { ty, a, v, idx } => {
                let x = self.get(st, a);
                let y = self.get(st, v);
                fn ins_at(x: Val, ty: &Ty, idx: &[u32], y: Val) -> Val {
                    if idx.is_empty() {
                        return y;
                    }
                    let mut v = match x {
                        Val::A(v) => v,
                        _ => Arc::new(vec![Val::C(0); ty.num_fields() as usize]),
                    };
                    let vv = Arc::make_mut(&mut v);
                    let i = idx[0] as usize;
                    let old = vv[i].clone();
                    vv[i] = ins_at(old, &ty.field(i as u64).1, &idx[1..], y);
                    Val::A(v)
                }
                let r = ins_at(x, ty, idx, y);
                set!(r)
            }
            I::ExtElem { a, i, .. } => {
                let x = self.get(st, a);
                let k = self.get(st, i);
                let k = self.conc(st, &k)? as usize;
                match x {
                    Val::A(v) if k < v.len() => set!(v[k].clone()),
                    _ => Err(Stop::Unsup("extractelement".into())),
                }
            }
            I::InsElem { ty, a, v, i } => {
                let x = self.get(st, a);
                let y = self.get(st, v);
                let k = self.get(st, i);
                let k = self.conc(st, &k)? as usize;
                let mut xs = match x {
                    Val::A(v) => (*v).clone(),
                    _ => vec![Val::C(0); ty.num_fields() as usize],
                };
                if k >= xs.len() {
                    return Err(Stop::Unsup("insertelement".into()));
                }
                xs[k] = y;
                set!(Val::A(Arc::new(xs)))
            }
            I::Shuffle { a, b, mask, .. } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let (xs, ys) = match (x, y) {
                    (Val::A(p), Val::A(q)) => (p, q),
                    _ => return Err(Stop::Unsup("shufflevector".into())),
                };
                let mut r = vec![];
                for m in mask {
                    let m = *m as usize;
                    r.push(if m < xs.len() { xs[m].clone() } else { ys[m - xs.len()].clone() });
                }
                set!(Val::A(Arc::new(r)))
            }
            I::Copy { a } => {
                let v = self.get(st, a);
                set!(v)
            }
            I::Rmw { op, ty, p, v } => {
                let a = self.get(st, p);
                let a = self.conc(st, &a)?;
                let old = self.load_ty(st, a, ty)?;
                let x = self.get(st, v);
                let new = match op.as_str() {
                    "xchg" => x,
                    "add" => self.binop(st, Bin::Add, ty, &old, &x)?,
                    "sub" => self.binop(st, Bin::Sub, ty, &old, &x)?,
                    "or" => self.binop(st, Bin::Or, ty, &old, &x)?,
                    "and" => self.binop(st, Bin::And, ty, &old, &x)?,
                    "xor" => self.binop(st, Bin::Xor, ty, &old, &x)?,
                    o => return Err(Stop::Unsup(format!("atomicrmw {}", o))),
                };
                self.store_ty(st, a, ty, &new)?;
                set!(old)
            }
            I::CmpXchg { ty, p, c, n } => {
                let a = self.get(st, p);
                let a = self.conc(st, &a)?;
                let old = self.load_ty(st, a, ty)?;
                let cv = self.get(st, c);
                let e = self.icmp(Pred::Eq, ty, &old, &cv)?;
                let k = self.conc(st, &e)?;
                if k == 1 {
                    let nv = self.get(st, n);
                    self.store_ty(st, a, ty, &nv)?;
                }
                set!(Val::A(Arc::new(vec![old, Val::C(k)])))
            }
            I::Nop => {
                st.top.ip += 1;
                Ok(())
            }
            I::Br(t) => {
                self.jump(st, *t);
                Ok(())
            }
            I::CondBr { c, t, f } => {
                let b = match self.get(st, c) {
                    Val::C(k) => k & 1 == 1,
                    Val::S(e) => self.decide(st, e)?,
                    _ => return Err(Stop::Unsup("br".into())),
                };
                self.jump(st, if b { *t } else { *f });
                Ok(())
            }
            I::Switch { ty, v, d, cases } => {
                let x = self.get(st, v);
                match x {
                    Val::C(k) => {
                        let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d);
                        self.jump(st, t);
                    }
                    Val::S(e) => {
                        if let Some(k) = self.known_val(st, e) {
                            let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d);
                            self.jump(st, t);
                            return Ok(());
                        }
                        let w = ty.bits();
                        let mut labels: Vec<u32> = vec![];
                        for c in cases {
                            if c.1 != *d && !labels.contains(&c.1) {
                                labels.push(c.1);
                            }
                        }
                        for l in labels {
                            let mut cond = self.ar.bool(false);
                            for c in cases {
                                if c.1 == l {
                                    let k = self.ar.konst(c.0, w);
                                    let q = self.ar.eq(e, k);
                                    cond = self.ar.or1(cond, q);
                                }
                            }
                            if self.decide(st, cond)? {
                                self.jump(st, l);
                                return Ok(());
                            }
                        }
                        self.jump(st, *d);
                    }
                    _ => return Err(Stop::Unsup("switch".into())),
                }
                Ok(())
            }
            I::Ret(v) => {
                let x = v.as_ref().map(|o| self.get(st, o));
                if st.top.stk != 0 {
                    st.mem.release(st.top.stk);
                }
                match st.stack.pop() {
                    None => Err(Stop::Done),
                    Some(fr) => {
                        let fr = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                        let old = std::mem::replace(&mut st.top, fr);
                        if old.dst != NONE {
                            st.top.regs[old.dst as usize] = x.unwrap_or(Val::C(0));
                        }
                        if old.normal != NONE {
                            self.jump(st, old.normal);
                        } else {
                            st.top.ip += 1;
                        }
                        Ok(())
                    }
                }
            }
            I::Unreachable => Err(Stop::Cand("unreachable".into(), "unreachable code reached".into())),
            I::Unsupported(s) => Err(Stop::Unsup(s.clone())),
        }
    }

    fn sel(&mut self, c: &Val, ty: &Ty, x: &Val, y: &Val) -> Ex<Val> {
        match c {
            Val::C(k) => Ok(if k & 1 == 1 { x.clone() } else { y.clone() }),
            Val::S(e) => {
                let w = ty.bits();
                if w == 0 || matches!((x, y), (Val::A(_), _) | (_, Val::A(_))) {
                    return Err(Stop::Unsup("select type".into()));
                }
                let (p, q) = (self.ex(x, w), self.ex(y, w));
                let r = self.ar.ite(*e, p, q);
                Ok(self.mkv(r))
            }
            _ => Err(Stop::Unsup("select".into())),
        }
    }

    fn zip(
        &mut self,
        ty: &Ty,
        x: &Val,
        y: &Val,
        f: &mut dyn FnMut(&mut Self, &Ty, &Val, &Val) -> Ex<Val>,
    ) -> Ex<Val> {
        match (x, y) {
            (Val::A(p), Val::A(q)) => {
                let (_, et) = ty.field(0);
                let mut r = vec![];
                for i in 0..p.len() {
                    r.push(f(self, &et, &p[i], &q[i])?);
                }
                Ok(Val::A(Arc::new(r)))
            }
            _ => f(self, ty, x, y),
        }
    }

    fn binop(&mut self, st: &mut State, op: Bin, ty: &Ty, x: &Val, y: &Val) -> Ex<Val> {
        if let (Val::C(a), Val::C(b)) = (x, y) {
            let w = ty.bits();
            if matches!(op, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) && *b == 0 {
                return Err(Stop::Cand("memory".into(), "division by zero".into()));
            }
            return Ok(Val::C(fold(op, w, *a, *b).unwrap()));
        }
        let _ = st;
        self.zip(ty, x, y, &mut |me, t, a, b| {
            if let (Val::C(a), Val::C(b)) = (a, b) {
                return Ok(Val::C(fold(op, t.bits(), *a, *b).unwrap()));
            }
            if op == Bin::FRem {
                return Err(Stop::Unsup("symbolic frem".into()));
            }
            let w = t.bits();
            let (p, q) = (me.ex(a, w), me.ex(b, w));
            let r = me.ar.bin(op, p, q);
            Ok(me.mkv(r))
        })
    }

    fn icmp(&mut self, p: Pred, ty: &Ty, x: &Val, y: &Val) -> Ex<Val> {
        if let (Val::C(a), Val::C(b)) = (x, y) {
            return Ok(Val::C(icmp_c(p, ty.bits(), *a, *b) as u128));
        }
        self.zip(ty, x, y, &mut |me, t, a, b| {
            let w = t.bits();
            if let (Val::C(a), Val::C(b)) = (a, b) {
                return Ok(Val::C(icmp_c(p, w, *a, *b) as u128));
            }
            let (c, d) = (me.ex(a, w), me.ex(b, w));
            let r = me.ar.icmp(p, c, d);
            Ok(me.mkv(r))
        })
    }

    fn fcmp(&mut self, p: &str, ty: &Ty, x: &Val, y: &Val) -> Ex<Val> {
        self.zip(ty, x, y, &mut |me, t, a, b| {
            let w = t.bits();
            if let (Val::C(a), Val::C(b)) = (a, b) {
                let (x, y) = if w == 32 {
                    (f32::from_bits(*a as u32) as f64, f32::from_bits(*b as u32) as f64)
                } else {
                    (f64::from_bits(*a as u64), f64::from_bits(*b as u64))
                };
                let un = x.is_nan() || y.is_nan();
                let r = match p {
                    "false" => false,
                    "true" => true,
                    "ord" => !un,
                    "uno" => un,
                    "oeq" => x == y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "one" => !un && x != y,
                    "ueq" => un || x == y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "une" => x != y,
                    _ => return Err(Stop::Unsup(format!("fcmp {}", p))),
                };
                return Ok(Val::C(r as u128));
            }
            let (c, d) = (me.ex(a, w), me.ex(b, w));
            let nan = |me: &mut Self, e: Id| -> Id {
                let m = me.ar.konst(mask(w - 1), w);
                let ab = me.ar.bin(Bin::And, e, m);
                let inf = me.ar.konst(if w == 32 { 0x7f800000 } else { 0x7ff0000000000000 }, w);
                me.ar.icmp(Pred::Ugt, ab, inf)
            };
            // total order on non-NaN: compare as sign-magnitude
            let n1 = nan(me, c);
            let n2 = nan(me, d);
            let un = me.ar.or1(n1, n2);
            let m = me.ar.konst(mask(w - 1), w);
            let ca = me.ar.bin(Bin::And, c, m);
            let da = me.ar.bin(Bin::And, d, m);
            let z = me.ar.konst(0, w);
            let both_zero = {
                let o = me.ar.bin(Bin::Or, ca, da);
                me.ar.eq(o, z)
            };
            let beq = me.ar.eq(c, d);
            let eq = me.ar.or1(beq, both_zero);
            let lt = {
                let sc = me.ar.extract(w - 1, w - 1, c);
                let sd = me.ar.extract(w - 1, w - 1, d);
                let nbz = me.ar.not1(both_zero);
                let cu = me.ar.icmp(Pred::Ult, ca, da);
                let cd = me.ar.icmp(Pred::Ugt, ca, da);
                // sc=1,sd=0: true unless both zero; sc=0,sd=1: false; both 0: cu; both 1: cd
                let f = me.ar.bool(false);
                let pos = me.ar.ite(sd, f, cu);
                let neg = me.ar.ite(sd, cd, nbz);
                me.ar.ite(sc, neg, pos)
            };
            let not_un = me.ar.not1(un);
            let le = me.ar.or1(lt, eq);
            let nlt = me.ar.not1(lt);
            let nle = me.ar.not1(le);
            let neq = me.ar.not1(eq);
            let r = match p {
                "false" => me.ar.bool(false),
                "true" => me.ar.bool(true),
                "ord" => not_un,
                "uno" => un,
                "oeq" => me.ar.and1(not_un, eq),
                "ogt" => me.ar.and1(not_un, nle),
                "oge" => me.ar.and1(not_un, nlt),
                "olt" => me.ar.and1(not_un, lt),
                "ole" => me.ar.and1(not_un, le),
                "one" => me.ar.and1(not_un, neq),
                "ueq" => me.ar.or1(un, eq),
                "ugt" => me.ar.or1(un, nle),
                "uge" => me.ar.or1(un, nlt),
                "ult" => me.ar.or1(un, lt),
                "ule" => me.ar.or1(un, le),
                "une" => me.ar.or1(un, neq),
                _ => return Err(Stop::Unsup(format!("fcmp {}", p))),
            };
            Ok(me.mkv(r))
        })
    }

    fn cast(&mut self, c: Cast, from: &Ty, to: &Ty, x: &Val) -> Ex<Val> {
        // vectors
        if let (Val::A(v), Ty::Vec(..)) = (x, from) {
            if c == Cast::Bitcast {
                // vector to scalar or other vector through bits
                let (_, et) = from.field(0);
                let ew = et.bits();
                let mut acc: Option<Id> = None;
                for e in v.iter() {
                    let b = self.ex(e, ew);
                    acc = Some(match acc {
                        None => b,
                        Some(l) => self.ar.concat(b, l),
                    });
                }
                let all = acc.ok_or(Stop::Unsup("bitcast".into()))?;
                if let Ty::Vec(n, t) = to {
                    let tw = t.bits();
                    let mut r = vec![];
                    for i in 0..*n as u32 {
                        let e = self.ar.extract((i + 1) * tw - 1, i * tw, all);
                        r.push(self.mkv(e));
                    }
                    return Ok(Val::A(Arc::new(r)));
                }
                return Ok(self.mkv(all));
            }
            if let Ty::Vec(..) = to {
                let (_, ft) = from.field(0);
                let (_, tt) = to.field(0);
                let mut r = vec![];
                for e in v.iter() {
                    r.push(self.cast(c, &ft, &tt, e)?);
                }
                return Ok(Val::A(Arc::new(r)));
            }
        }
        let (fw, tw) = (from.bits(), to.bits());
        if let (Ty::Vec(n, t), Cast::Bitcast) = (to, c) {
            let all = self.ex(x, fw);
            let ew = t.bits();
            let mut r = vec![];
            for i in 0..*n as u32 {
                let e = self.ar.extract((i + 1) * ew - 1, i * ew, all);
                r.push(self.mkv(e));
            }
            return Ok(Val::A(Arc::new(r)));
        }
        match x {
            Val::C(a) => {
                let a = *a;
                Ok(Val::C(match c {
                    Cast::Trunc | Cast::ZExt | Cast::Bitcast | Cast::PtrToInt | Cast::IntToPtr => a & mask(tw),
                    Cast::SExt => (sext(a, fw) as u128) & mask(tw),
                    Cast::UIToFP => fconv(K::U2F, fw, tw, a),
                    Cast::SIToFP => fconv(K::S2F, fw, tw, a),
                    Cast::FPToUI => fconv(K::F2U, fw, tw, a),
                    Cast::FPToSI => fconv(K::F2S, fw, tw, a),
                    Cast::FPTrunc => fconv(K::FTrunc, fw, tw, a),
                    Cast::FPExt => fconv(K::FExt, fw, tw, a),
                }))
            }
            Val::S(e) => {
                let e = *e;
                let r = match c {
                    Cast::Trunc => self.ar.extract(tw - 1, 0, e),
                    Cast::ZExt => self.ar.zext(e, tw),
                    Cast::Bitcast | Cast::PtrToInt | Cast::IntToPtr => {
                        if tw < fw {
                            self.ar.extract(tw - 1, 0, e)
                        } else {
                            self.ar.zext(e, tw)
                        }
                    }
                    Cast::SExt => self.ar.sext(e, tw),
                    Cast::UIToFP => self.ar.unary_f(K::U2F, e, tw),
                    Cast::SIToFP => self.ar.unary_f(K::S2F, e, tw),
                    Cast::FPToUI => self.ar.unary_f(K::F2U, e, tw),
                    Cast::FPToSI => self.ar.unary_f(K::F2S, e, tw),
                    Cast::FPTrunc => self.ar.unary_f(K::FTrunc, e, tw),
                    Cast::FPExt => self.ar.unary_f(K::FExt, e, tw),
                };
                Ok(self.mkv(r))
            }
            _ => Err(Stop::Unsup("cast".into())),
        }
    }

    // ------------------------------------------------------ calls

    fn call(&mut self, st: &mut State, ins: &'p Ins, callee: &Callee, args: &[(Ty, Op)]) -> Ex<()> {
        let p = self.p;
        let func = match callee {
            Callee::Nop => {
                self.fin(st, ins, None);
                return Ok(());
            }
            Callee::Func(i) => *i,
            Callee::Ind(o) => {
                let v = self.get(st, o);
                let a = self.conc(st, &v)? as u64;
                if a < FN_BASE || (a - FN_BASE) / 16 >= p.m.funcs.len() as u64 {
                    return Err(Stop::Cand("memory".into(), "call of a bad function pointer".into()));
                }
                ((a - FN_BASE) / 16) as u32
            }
            Callee::Ext(n) => return self.external(st, ins, n, args),
        };
        let f = &p.m.funcs[func as usize];
        if f.blocks.is_empty() {
            return self.external(st, ins, &f.name, args);
        }
        match p.fi[func as usize].sp {
            Sp::None => {}
            Sp::Panic => {
                let loc = args.last().map(|a| self.get(st, &a.1));
                let msg = match loc {
                    Some(Val::C(a)) => self.location(st, a),
                    _ => None,
                };
                return Err(Stop::Cand("panic".into(), msg.unwrap_or_else(|| "panic".into())));
            }
            Sp::AllocErr => return Err(Stop::Cand("alloc".into(), "allocation failure".into())),
            Sp::NopRet0 => {
                self.fin(st, ins, Some(Val::C(0)));
                return Ok(());
            }
            Sp::Lex(kind) => {
                if !st.toks.is_empty() {
                    let ptr = self.get(st, &args[1].1);
                    let ptr = self.conc(st, &ptr)?;
                    let len = self.get(st, &args[2].1);
                    let len = self.conc(st, &len)? as u64;
                    if let Some(k) = self.token_at(st, ptr, len)? {
                        return self.lex_token(st, ins, kind, k, args);
                    }
                }
            }
            Sp::FromStr(kind) => {
                let n = args.len();
                if !st.toks.is_empty() && (n == 2 || n == 3) {
                    let ptr = self.get(st, &args[n - 2].1);
                    let ptr = self.conc(st, &ptr)?;
                    let len = self.get(st, &args[n - 1].1);
                    let len = self.conc(st, &len)? as u64;
                    if let Some(k) = self.token_at(st, ptr, len)? {
                        let name = if kind == TOK_F32 { "stub_str_f32" } else { "stub_str_f64" };
                        let i = *p.stubs.get(name).ok_or(Stop::Unsup(format!("no {}", name)))?;
                        let e = self.tok_value(st, kind, k)?;
                        let mut av = vec![];
                        if n == 3 {
                            av.push(self.get(st, &args[0].1));
                        }
                        av.push(self.mkv(e));
                        if p.m.funcs[i as usize].params.len() != av.len() {
                            return Err(Stop::Unsup("from_str stub signature".into()));
                        }
                        return self.enter(st, i, av, ins.dst, ins.normal);
                    }
                }
            }
            Sp::Fmt(kind) => {
                let a0 = self.get(st, &args[0].1);
                let v = if matches!(p.m.funcs[func as usize].params[0].0, Ty::Ptr) {
                    let ptr = self.conc(st, &a0)?;
                    let ty = match kind {
                        TOK_F32 => Ty::F32,
                        TOK_F64 => Ty::F64,
                        _ => Ty::Int(64),
                    };
                    self.load_ty(st, ptr, &ty)?
                } else {
                    a0
                };
                if let Val::S(e) = v {
                    if self.known_val(st, e).is_none() {
                        let name = match kind {
                            TOK_F32 => "stub_fmt_f32",
                            TOK_F64 => "stub_fmt_f64",
                            _ => "stub_fmt_usize",
                        };
                        if let Some(i) = p.stubs.get(name) {
                            let a1 = self.get(st, &args[1].1);
                            return self.enter(st, *i, vec![v, a1], ins.dst, ins.normal);
                        }
                    }
                }
            }
            Sp::TryFromSecs => {
                if let Val::S(e) = self.get(st, &args[1].1) {
                    if let Some((s, n)) = self.match_secs(e) {
                        // the contract holds for less than 10^6 s and less than a second of ns
                        let k = self.ar.konst(1_000_000, 64);
                        let g = self.ar.konst(1_000_000_000, 32);
                        let a = self.ar.icmp(Pred::Uge, s, k);
                        let b = self.ar.icmp(Pred::Uge, n, g);
                        let c = self.ar.bin(Bin::Or, a, b);
                        let ok = matches!(self.feasible(st, c), Ok(None));
                        if let (true, Some(i)) = (ok, p.stubs.get("stub_dur")) {
                            let a0 = self.get(st, &args[0].1);
                            let s = self.mkv(s);
                            let n = self.mkv(n);
                            return self.enter(st, *i, vec![a0, s, n], ins.dst, ins.normal);
                        }
                    }
                }
            }
        }
        let a: Vec<Val> = args.iter().map(|(_, o)| self.get(st, o)).collect();
        self.enter(st, func, a, ins.dst, ins.normal)
    }

    /// `(secs as f64) + (nanos as f64) / 1e9`
    fn match_secs(&mut self, e: Id) -> Option<(Id, Id)> {
        let n = self.ar.nodes[e as usize];
        if n.k != K::FAdd {
            return None;
        }
        for (a, b) in [(n.a, n.b), (n.b, n.a)] {
            let d = self.ar.nodes[b as usize];
            if d.k != K::FDiv || self.ar.as_const(d.b) != Some(1e9f64.to_bits() as u128) {
                continue;
            }
            let nn = self.ar.nodes[d.a as usize];
            if nn.k != K::U2F {
                continue;
            }
            let nanos = nn.a;
            let secs = match self.ar.as_const(a) {
                Some(c) => {
                    let f = f64::from_bits(c as u64);
                    if f.fract() != 0.0 || f < 0.0 || f > 1e6 {
                        return None;
                    }
                    self.ar.konst(f as u128, 64)
                }
                None => {
                    let m = self.ar.nodes[a as usize];
                    if m.k != K::U2F {
                        continue;
                    }
                    m.a
                }
            };
            let secs = if self.ar.w(secs) < 64 { self.ar.zext(secs, 64) } else { secs };
            let nanos = if self.ar.w(nanos) > 32 {
                self.ar.extract(31, 0, nanos)
            } else {
                self.ar.zext(nanos, 32)
            };
            return Some((secs, nanos));
        }
        None
    }

    /// The token whose text is exactly these bytes.
    fn token_at(&mut self, st: &State, ptr: u128, len: u64) -> Ex<Option<usize>> {
        if len == 0 || len >= 64 {
            return Ok(None);
        }
        let (id, off) = self.resolve(st, ptr, len)?;
        let o = st.mem.get(id).unwrap().clone();
        if !o.s.is_empty() && o.s[off..off + len as usize].iter().any(|x| *x != 0) {
            return Ok(None);
        }
        let txt = &o.b[off..off + len as usize];
        Ok(st.toks.iter().position(|t| t.text[..] == *txt))
    }

    /// The value token `k` reads back as.
    fn tok_value(&mut self, st: &mut State, kind: u8, k: usize) -> Ex<Id> {
        let t = st.toks[k].clone();
        let w = if kind == TOK_F32 { 32 } else { 64 };
        if kind == t.kind && t.prec == 0 {
            return Ok(t.e);
        }
        if kind == TOK_USIZE || t.kind == TOK_USIZE {
            return Err(Stop::Unsup("number token read as another type".into()));
        }
        let n = self.ar.nodes[t.e as usize];
        if t.prec == 0 && kind == TOK_F32 && n.k == K::FExt && self.ar.w(n.a) == 32 {
            // shortest f64 text of an f32 value
            return Ok(n.a);
        }
        if let Some(v) = t.read[kind as usize] {
            return Ok(v);
        }
        // rounded text, or text of the other width: some finite value
        st.nondet += 1;
        let seq = st.inputs.len() as u32;
        Rc::make_mut(&mut st.internal).push(seq);
        let v = self.fresh(st, w);
        let m = self.ar.konst(mask(w - 1), w);
        let ab = self.ar.bin(Bin::And, v, m);
        let lim = if w == 32 { 0x7f800000 } else { 0x7ff0000000000000 };
        let inf = self.ar.konst(lim, w);
        let fin = self.ar.icmp(Pred::Ult, ab, inf);
        self.assume_fresh(st, fin, v);
        if w == 64 && t.kind == TOK_F64 {
            if let Some((secs, _)) = self.match_secs(t.e) {
                // Rounding a duration gives no negative number, and nothing above a power of
                // two the duration is below.
                let top = self.ar.extract(63, 63, v);
                let zero = self.ar.konst(0, 1);
                let pos = self.ar.eq(top, zero);
                self.assume_fresh(st, pos, v);
                let k60 = self.ar.konst(1 << 60, 64);
                let small = self.ar.icmp(Pred::Ult, secs, k60);
                let lim = self.ar.konst(((1u64 << 60) as f64).to_bits() as u128, 64);
                let below = self.ar.icmp(Pred::Ule, v, lim);
                let big = self.ar.not1(small);
                let c = self.ar.bin(Bin::Or, big, below);
                self.assume_fresh(st, c, v);
            }
        }
        Rc::make_mut(&mut st.toks)[k].read[kind as usize] = Some(v);
        Ok(v)
    }

    fn lex_token(&mut self, st: &mut State, ins: &'p Ins, kind: u8, k: usize, args: &[(Ty, Op)]) -> Ex<()> {
        let p = self.p;
        let name = match kind {
            TOK_F32 => "stub_lex_f32",
            TOK_F64 => "stub_lex_f64",
            _ => "stub_lex_usize",
        };
        let i = *p.stubs.get(name).ok_or(Stop::Unsup(format!("no {}", name)))?;
        let e = self.tok_value(st, kind, k)?;
        let out = self.get(st, &args[0].1);
        let v = self.mkv(e);
        self.enter(st, i, vec![out, v], ins.dst, ins.normal)
    }

    /// Constrain a fresh variable (always satisfiable: value 0 works).
    fn assume_fresh(&mut self, st: &mut State, c: Id, v: Id) {
        if self.eval_model(st, c) != 1 {
            let var = self.ar.nodes[v as usize].a;
            let mut m = (*st.model).clone();
            set_model(&mut m, var, 0);
            st.model = Rc::new(m);
        }
        self.add_con(st, c);
    }

    fn fresh(&mut self, st: &mut State, w: u32) -> Id {
        let seq = st.inputs.len() as u32;
        let var = match self.varmap.get(&(seq, w)) {
            Some(v) => *v,
            None => {
                let v = self.varmap.len() as u32;
                self.varmap.insert((seq, w), v);
                v
            }
        };
        let e = self.ar.var_seq(var, w, seq);
        Rc::make_mut(&mut st.inputs).push(var);
        let val = if (seq as usize) < self.seed.len() {
            self.seed[seq as usize]
        } else {
            hash64(seq as u64 * 31 + w as u64) & mask(w) as u64
        };
        let mut m = (*st.model).clone();
        set_model(&mut m, var, val);
        st.model = Rc::new(m);
        e
    }

    fn location(&mut self, st: &State, a: u128) -> Option<String> {
        let rd = |o: u128, n: usize| -> Option<u64> {
            let (id, off) = self.resolve(st, a + o, n as u64).ok()?;
            let ob = st.mem.get(id)?;
            let mut v = 0u64;
            for i in (0..n).rev() {
                v = v << 8 | ob.b[off + i] as u64;
            }
            Some(v)
        };
        let p = rd(0, 8)?;
        let n = rd(8, 8)?;
        let line = rd(16, 4)?;
        if n > 300 {
            return None;
        }
        let (id, off) = self.resolve(st, p as u128, n).ok()?;
        let ob = st.mem.get(id)?;
        let f = String::from_utf8_lossy(&ob.b[off..off + n as usize]).into_owned();
        Some(format!("{}:{}", f.trim_end_matches('\0'), line))
    }

    fn read_str(&mut self, st: &State, p: u128, n: u64) -> Ex<String> {
        let (id, off) = self.resolve(st, p, n)?;
        let ob = st.mem.get(id).unwrap();
        Ok(String::from_utf8_lossy(&ob.b[off..off + n as usize]).into_owned())
    }

    fn external(&mut self, st: &mut State, ins: &'p Ins, name: &str, args: &[(Ty, Op)]) -> Ex<()> {
        let a: Vec<Val> = args.iter().map(|(_, o)| self.get(st, o)).collect();
        macro_rules! ret {
            ($v:expr) => {{
                let v = $v;
                self.fin(st, ins, Some(v));
                Ok(())
            }};
        }
        if let Some(n) = name.strip_prefix("llvm.") {
            let tys: Vec<Ty> = args.iter().map(|(t, _)| t.clone()).collect();
            let v = self.intrinsic(st, n, &tys, &a)?;
            self.fin(st, ins, Some(v));
            return Ok(());
        }
        // functions of libm
        if let Some(Ty::F32 | Ty::F64) = args.first().map(|x| &x.0) {
            let w = args[0].0.bits();
            let base = if w == 32 { name.strip_suffix('f') } else { Some(name) };
            if let Some(base) = base {
                let k = match base {
                    "floor" => Some(K::FFloor),
                    "ceil" => Some(K::FCeil),
                    "trunc" => Some(K::FToZero),
                    "round" => Some(K::FAway),
                    "sqrt" => Some(K::FSqrt),
                    "rint" | "roundeven" | "nearbyint" => Some(K::FEven),
                    _ => None,
                };
                if let (Some(k), Val::S(e)) = (k, &a[0]) {
                    let r = self.ar.unary_f(k, *e, w);
                    return ret!(self.mkv(r));
                }
                let mut v = vec![];
                for x in &a {
                    v.push(self.pin(st, x, name)?);
                }
                if let Some(r) = libm(base, w, &v) {
                    return ret!(Val::C(r));
                }
            }
        }
        match name {
            "malloc" => {
                let r = self.alloc(st, &a[0])?;
                ret!(Val::C(r))
            }
            "calloc" => {
                let n = self.conc(st, &a[0])?;
                let m = self.conc(st, &a[1])?;
                let r = self.alloc(st, &Val::C(n * m))?;
                ret!(Val::C(r))
            }
            "posix_memalign" => {
                let r = self.alloc(st, &a[2])?;
                let p = self.conc(st, &a[0])?;
                self.store_ty(st, p, &Ty::Ptr, &Val::C(r))?;
                ret!(Val::C(0))
            }
            "realloc" => {
                let p = self.conc(st, &a[0])?;
                // decide the size before anything changes
                let n = match &a[1] {
                    Val::C(c) => *c,
                    Val::S(e) => {
                        let w = self.ar.w(*e);
                        let l = self.ar.konst(st.limit as u128, w);
                        let big = self.ar.icmp(Pred::Ugt, *e, l);
                        if self.decide(st, big)? {
                            return Err(Stop::Cand("alloc".into(), "allocation out of proportion".into()));
                        }
                        self.concretize(st, *e)?
                    }
                    _ => return Err(Stop::Unsup("realloc".into())),
                };
                let r = self.alloc(st, &Val::C(n))?;
                if p != 0 {
                    let (id, _) = self.resolve(st, p, 0)?;
                    let old = st.mem.get(id).unwrap().b.len() as u64;
                    self.copy(st, r, p, old.min(n as u64))?;
                    self.free(st, p)?;
                }
                ret!(Val::C(r))
            }
            "free" => {
                let p = self.conc(st, &a[0])?;
                self.free(st, p)?;
                ret!(Val::C(0))
            }
            "memcmp" | "bcmp" => {
                let n = self.conc(st, &a[2])? as u64;
                if n == 0 {
                    return ret!(Val::C(0));
                }
                let x = self.conc(st, &a[0])?;
                let y = self.conc(st, &a[1])?;
                let (xi, xo) = self.resolve(st, x, n)?;
                let (yi, yo) = self.resolve(st, y, n)?;
                let w = 32;
                if name == "bcmp" {
                    let mut eq = self.ar.bool(true);
                    for i in 0..n as usize {
                        let p = self.byte_at(st, xi, xo + i);
                        let q = self.byte_at(st, yi, yo + i);
                        let e = self.ar.eq(p, q);
                        eq = self.ar.and1(eq, e);
                        if self.ar.as_const(eq) == Some(0) {
                            break;
                        }
                    }
                    let ne = self.ar.not1(eq);
                    let r = self.ar.zext(ne, w);
                    ret!(self.mkv(r))
                } else {
                    let mut r = self.ar.konst(0, w);
                    for i in (0..n as usize).rev() {
                        let p = self.byte_at(st, xi, xo + i);
                        let q = self.byte_at(st, yi, yo + i);
                        let e = self.ar.eq(p, q);
                        let pz = self.ar.zext(p, w);
                        let qz = self.ar.zext(q, w);
                        let d = self.ar.bin(Bin::Sub, pz, qz);
                        r = self.ar.ite(e, r, d);
                    }
                    ret!(self.mkv(r))
                }
            }
            "memcpy" | "memmove" => {
                let n = self.conc(st, &a[2])? as u64;
                let d = self.conc(st, &a[0])?;
                let s = self.conc(st, &a[1])?;
                self.copy(st, d, s, n)?;
                ret!(Val::C(d))
            }
            "strlen" => {
                let p = self.conc(st, &a[0])?;
                let (id, off) = self.resolve(st, p, 0)?;
                let ob = st.mem.get(id).unwrap();
                let n = ob.b[off..].iter().position(|x| *x == 0).unwrap_or(0);
                ret!(Val::C(n as u128))
            }
            "abort" | "exit" | "_exit" => Err(Stop::Cand("panic".into(), "abort".into())),
            "__cxa_thread_atexit_impl" | "getenv" | "sched_yield" | "fflush" | "fsync" | "close" | "pthread_mutex_lock"
            | "pthread_mutex_unlock" | "pthread_mutex_init" | "pthread_mutex_destroy" | "pthread_self" | "signal"
            | "sigaction" | "atexit" | "nanosleep" => ret!(Val::C(0)),
            "getpid" | "gettid" => ret!(Val::C(4242)),
            "isatty" => ret!(Val::C(0)),
            // thread locals of the one thread: their addresses are their keys
            "pthread_key_create" => {
                let p = self.conc(st, &a[0])?;
                let k = st.mem.alloc(8);
                self.store_ty(st, p, &Ty::Int(32), &Val::C(k as u128))?;
                ret!(Val::C(0))
            }
            "pthread_getspecific" => {
                let k = self.conc(st, &a[0])?;
                let v = self.load_ty(st, k << OBJ_SHIFT, &Ty::Ptr)?;
                ret!(v)
            }
            "pthread_setspecific" => {
                let k = self.conc(st, &a[0])?;
                self.store_ty(st, k << OBJ_SHIFT, &Ty::Ptr, &a[1])?;
                ret!(Val::C(0))
            }
            "pthread_key_delete" => ret!(Val::C(0)),
            // what is printed is not looked at
            "write" => {
                let n = self.conc(st, &a[2])?;
                ret!(Val::C(n))
            }
            "writev" => {
                let p = self.conc(st, &a[1])?;
                let k = self.conc(st, &a[2])?.min(1024);
                let mut n = 0;
                for i in 0..k {
                    let l = self.load_ty(st, p + 16 * i + 8, &Ty::Int(64))?;
                    n += self.conc(st, &l)?;
                }
                ret!(Val::C(n))
            }
            "__errno_location" => {
                let r = (st.mem.alloc(8) as u128) << OBJ_SHIFT;
                ret!(Val::C(r))
            }
            // the same random numbers, and the same time, in every run
            "getrandom" | "getentropy" => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                for i in 0..n {
                    self.store_ty(st, p + i, &Ty::Int(8), &Val::C(hash64(i as u64 + 1) as u128 & 255))?;
                }
                ret!(Val::C(if name == "getrandom" { n } else { 0 }))
            }
            "clock_gettime" => {
                let p = self.conc(st, &a[1])?;
                let t = 1_700_000_000 + st.steps / 1_000_000;
                self.store_ty(st, p, &Ty::Int(64), &Val::C(t as u128))?;
                self.store_ty(st, p + 8, &Ty::Int(64), &Val::C(0))?;
                ret!(Val::C(0))
            }
            "memchr" | "memrchr" => {
                let n = self.conc(st, &a[2])? as usize;
                let p = self.conc(st, &a[0])?;
                let c = self.ex(&a[1], args[1].0.bits());
                let c = self.ar.extract(7, 0, c);
                let mut r = 0;
                if n > 0 {
                    let (id, off) = self.resolve(st, p, n as u64)?;
                    for j in 0..n {
                        let i = if name == "memchr" { j } else { n - 1 - j };
                        let b = self.byte_at(st, id, off + i);
                        let e = self.ar.eq(b, c);
                        if self.decide(st, e)? {
                            r = p + i as u128;
                            break;
                        }
                    }
                }
                ret!(Val::C(r))
            }
            // ---- harness interface
            "sym_int" => {
                let w = self.conc(st, &a[0])? as u32;
                let e = self.fresh(st, w);
                let z = self.ar.zext(e, 64);
                ret!(Val::S(z))
            }
            "sym_choose" => {
                // one of 0..n, forked now
                let n = self.conc(st, &a[0])?;
                if n == 0 || n > 1024 {
                    return Err(Stop::Unsup("sym_choose range".into()));
                }
                // the variable must be created once although the instruction may run again
                let w = if n > 256 { 16 } else { 8 };
                let e = self.fresh(st, w);
                let l = self.ar.konst(n - 1, w);
                let c = self.ar.icmp(Pred::Ule, e, l);
                let var = self.ar.nodes[e as usize].a;
                if self.eval_model(st, c) != 1 {
                    let mut m = (*st.model).clone();
                    let v = m[var as usize] % n as u64;
                    set_model(&mut m, var, v);
                    st.model = Rc::new(m);
                }
                self.add_con(st, c);
                self.fin(st, ins, None);
                // fork over the values; each state already past the call
                let k = self.choose_after(st, ins, e)?;
                let _ = k;
                Ok(())
            }
            "sym_concretize" => {
                let v = self.conc(st, &a[0])?;
                ret!(Val::C(v))
            }
            "sym_is_symbolic" => {
                let r = match &a[0] {
                    Val::S(e) => self.known_val(st, *e).is_none(),
                    _ => false,
                };
                ret!(Val::C(r as u128))
            }
            "sym_assume" => {
                self.st.assumes += 1;
                let c = self.cond_of(&a[0], &args[0].0);
                if let Some(k) = self.ar.as_const(c) {
                    if k == 0 {
                        return Err(Stop::Pruned);
                    }
                    return ret!(Val::C(0));
                }
                let mut memo = HashMap::new();
                match self.tri(st, c, &mut memo) {
                    Some(true) => return ret!(Val::C(0)),
                    Some(false) => return Err(Stop::Pruned),
                    None => {}
                }
                if self.eval_model(st, c) != 1 {
                    match self.feasible(st, c) {
                        Err(()) => return Err(Stop::Incomplete("solver timeout on an assumption".into())),
                        Ok(None) => return Err(Stop::Pruned),
                        Ok(Some(m)) => st.model = m,
                    }
                }
                self.add_con(st, c);
                ret!(Val::C(0))
            }
            "sym_check" => {
                self.st.checks += 1;
                st.checks += 1;
                let p = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])? as u64;
                let msg = self.read_str(st, p, n)?;
                let c = self.cond_of(&a[0], &args[0].0);
                match self.ar.as_const(c) {
                    Some(0) => return Err(Stop::Cand("check".into(), msg)),
                    Some(_) => {
                        self.st.checks_folded += 1;
                        return ret!(Val::C(0));
                    }
                    None => {}
                }
                self.st.checks_solver += 1;
                let nc = self.ar.not1(c);
                if self.rpos >= self.replay.len() {
                    match self.query(st, nc) {
                        Res::Unsat => {}
                        Res::Unknown => {
                            *self.st.incomplete.entry("solver timeout on a check".into()).or_default() += 1;
                        }
                        Res::Sat(asg) => {
                            let mut m = (*st.model).clone();
                            for (v, x) in asg {
                                set_model(&mut m, v, x);
                            }
                            self.candidate(st, "check", &msg, &m);
                        }
                    }
                    if self.eval_model(st, c) != 1 {
                        match self.feasible(st, c) {
                            Err(()) => return Err(Stop::Incomplete("solver timeout after a check".into())),
                            Ok(None) => return Err(Stop::Pruned),
                            Ok(Some(m)) => st.model = m,
                        }
                    }
                }
                self.add_con(st, c);
                ret!(Val::C(0))
            }
            "sym_cover" => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])? as u64;
                let msg = self.read_str(st, p, n)?;
                let i = self.intern(&msg);
                Rc::make_mut(&mut st.covers).insert(i);
                ret!(Val::C(0))
            }
            "sym_out" => {
                Rc::make_mut(&mut st.outs).push(a[0].clone());
                ret!(Val::C(0))
            }
            "sym_tok" => {
                // (kind, bits, precision+1 or 0, buf) -> length, 0 if the value is concrete
                let kind = self.conc(st, &a[0])? as u8;
                let prec = self.conc(st, &a[2])? as u32;
                let buf = self.conc(st, &a[3])?;
                let e = match &a[1] {
                    Val::S(e) => *e,
                    _ => return ret!(Val::C(0)),
                };
                if self.known_val(st, e).is_some() {
                    return ret!(Val::C(0));
                }
                let e = if kind == TOK_F32 { self.ar.extract(31, 0, e) } else { e };
                let k = match st.toks.iter().position(|t| t.kind == kind && t.e == e && t.prec == prec) {
                    Some(k) => k,
                    None => {
                        let k = st.toks.len();
                        let text = match kind {
                            TOK_F32 => format!("7.7310000{:03}", k),
                            TOK_F64 => format!("8.7320000{:03}", k),
                            _ => format!("97310{:03}", k),
                        };
                        Rc::make_mut(&mut st.toks).push(Tok { kind, e, prec, text: Rc::new(text.into_bytes()), read: [None; 2] });
                        k
                    }
                };
                let t = st.toks[k].text.clone();
                for (i, b) in t.iter().enumerate() {
                    self.store_ty(st, buf + i as u128, &Ty::Int(8), &Val::C(*b as u128))?;
                }
                ret!(Val::C(t.len() as u128))
            }
            "sym_alloc_limit" => {
                st.limit = self.conc(st, &a[0])? as u64;
                ret!(Val::C(0))
            }
            "sym_patience" => {
                st.patience = (self.conc(st, &a[0])? as u64).clamp(1, 1000);
                ret!(Val::C(0))
            }
            "sym_stop" => Err(Stop::Stopped),
            _ => Err(Stop::Unsup(format!("external {}", name))),
        }
    }

    fn cond_of(&mut self, v: &Val, ty: &Ty) -> Id {
        let w = ty.bits();
        let e = self.ex(v, w);
        if w == 1 {
            e
        } else {
            let z = self.ar.konst(0, w);
            let q = self.ar.eq(e, z);
            self.ar.not1(q)
        }
    }

    /// Used after `fin`: the choice variable is concretized with every fork past the call.
    fn choose_after(&mut self, st: &mut State, ins: &'p Ins, e: Id) -> Ex<()> {
        let base = self.work.len();
        let k = self.concretize(st, e)?;
        // forks were created from `st` (already past the call); give each its own result
        if ins.dst != NONE {
            st.top.regs[ins.dst as usize] = Val::C(k);
            let n = self.work.len();
            for i in base..n {
                let v = *self.work[i].known.get(&e).expect("choice value");
                self.work[i].top.regs[ins.dst as usize] = Val::C(v);
            }
        }
        Ok(())
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, tys: &[Ty], a: &[Val]) -> Ex<Val> {
        macro_rules! ret {
            ($v:expr) => {{
                let v = $v;
                Ok(v)
            }};
        }
        let base = n.split('.').next().unwrap_or("");
        let w = tys.first().map(|x| x.bits()).unwrap_or(0);
        // lane by lane
        if let (Some(Ty::Vec(..)), Some(Val::A(v))) = (tys.first(), a.first()) {
            let whole = ["umax", "umin", "smax", "smin", "maxnum", "minnum", "maximumnum", "minimumnum"];
            if !whole.contains(&base) && !n.starts_with("vector.") {
                let k = v.len();
                let mut out = vec![];
                for l in 0..k {
                    let mut lt = vec![];
                    let mut la = vec![];
                    for (t, x) in tys.iter().zip(a) {
                        match (t, x) {
                            (Ty::Vec(..), Val::A(v)) if v.len() == k => {
                                lt.push(t.field(0).1);
                                la.push(v[l].clone());
                            }
                            (Ty::Vec(..), _) => return Err(Stop::Unsup(format!("intrinsic {}", n))),
                            _ => {
                                lt.push(t.clone());
                                la.push(x.clone());
                            }
                        }
                    }
                    out.push(self.intrinsic(st, n, &lt, &la)?);
                }
                if n.contains(".with.overflow") {
                    let col = |i: usize| -> Val {
                        Val::A(Arc::new(
                            out.iter()
                                .map(|v| match v {
                                    Val::A(p) => p[i].clone(),
                                    v => v.clone(),
                                })
                                .collect(),
                        ))
                    };
                    return Ok(Val::A(Arc::new(vec![col(0), col(1)])));
                }
                return Ok(Val::A(Arc::new(out)));
            }
        }
        match base {
            "lifetime" | "experimental" | "assume" | "dbg" | "donothing" | "prefetch" | "va_start" | "invariant" => {
                ret!(Val::C(0))
            }
            "x86" if n == "x86.sse2.pause" => ret!(Val::C(0)),
            "trap" | "debugtrap" => Err(Stop::Cand("panic".into(), "trap".into())),
            "threadlocal" => ret!(a[0].clone()),
            "is" if n.starts_with("is.constant") => ret!(Val::C(0)),
            "expect" | "launder" | "strip" => ret!(a[0].clone()),
            "memcpy" | "memmove" => {
                let l = self.conc(st, &a[2])? as u64;
                let d = self.conc(st, &a[0])?;
                let s = self.conc(st, &a[1])?;
                self.copy(st, d, s, l)?;
                ret!(Val::C(0))
            }
            "memset" => {
                let l = self.conc(st, &a[2])? as u64;
                let d = self.conc(st, &a[0])?;
                if l > 0 {
                    let (id, off) = self.resolve(st, d, l)?;
                    match &a[1] {
                        Val::C(c) => {
                            let o = st.mem.get_mut(id).unwrap();
                            for i in 0..l as usize {
                                o.b[off + i] = *c as u8;
                            }
                            if !o.s.is_empty() {
                                for i in 0..l as usize {
                                    o.s[off + i] = 0;
                                }
                            }
                        }
                        v => {
                            let v = v.clone();
                            for i in 0..l {
                                self.store_ty(st, d + i as u128, &Ty::Int(8), &v)?;
                            }
                        }
                    }
                }
                ret!(Val::C(0))
            }
            "umax" | "umin" | "smax" | "smin" => {
                let p = match base {
                    "umax" => Pred::Ugt,
                    "umin" => Pred::Ult,
                    "smax" => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let ty = tys[0].clone();
                let v = self.zip(&ty, &a[0], &a[1], &mut |me, t, x, y| {
                    let c = me.icmp(p, t, x, y)?;
                    me.sel(&c, t, x, y)
                })?;
                ret!(v)
            }
            "abs" => {
                let ty = tys[0].clone();
                let c = self.icmp(Pred::Slt, &ty, &a[0], &Val::C(0))?;
                let neg = self.binop(st, Bin::Sub, &ty, &Val::C(0), &a[0])?;
                let v = self.sel(&c, &ty, &neg, &a[0])?;
                ret!(v)
            }
            "ucmp" | "scmp" => {
                let ty = tys[0].clone();
                let (lt, gt) = if base == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, &ty, &a[0], &a[1])?;
                let g = self.icmp(gt, &ty, &a[0], &a[1])?;
                let rw = if n.contains("cmp.i8") { Ty::Int(8) } else { Ty::Int(32) };
                let x = self.sel(&g, &rw, &Val::C(1), &Val::C(0))?;
                let v = self.sel(&l, &rw, &Val::C(mask(rw.bits())), &x)?;
                ret!(v)
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let signed = base.starts_with('s');
                let op = match &base[1..] {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    _ => Bin::Mul,
                };
                let sat = n.contains(".sat.");
                let wider = if op == Bin::Mul { 2 * w } else { w + 1 };
                let simple = op != Bin::Mul && !signed;
                let (mut a0, mut a1) = (a[0].clone(), a[1].clone());
                if wider > 128 && !simple {
                    a0 = self.pin(st, &a0, "overflow of 128 bit numbers")?;
                    a1 = self.pin(st, &a1, "overflow of 128 bit numbers")?;
                }
                let a = [a0, a1];
                if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) {
                    let (r, o) = ovf(op, signed, w, *x, *y);
                    if sat {
                        let v = if !o {
                            r
                        } else if !signed {
                            if op == Bin::Sub {
                                0
                            } else {
                                mask(w)
                            }
                        } else {
                            let neg = match op {
                                Bin::Mul => (sext(*x, w) < 0) != (sext(*y, w) < 0),
                                _ => sext(*x, w) < 0,
                            };
                            if neg {
                                1u128 << (w - 1)
                            } else {
                                mask(w - 1)
                            }
                        };
                        return ret!(Val::C(v));
                    }
                    return ret!(Val::A(Arc::new(vec![Val::C(r), Val::C(o as u128)])));
                }
                let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                let r = self.ar.bin(op, x, y);
                let ww = match op {
                    Bin::Mul => 2 * w,
                    _ => w + 1,
                };
                let o = if !signed && op == Bin::Sub {
                    self.ar.icmp(Pred::Ult, x, y)
                } else if !signed && op == Bin::Add {
                    self.ar.icmp(Pred::Ult, r, x)
                } else {
                    let (ex, ey, er) = if signed {
                        (self.ar.sext(x, ww), self.ar.sext(y, ww), self.ar.sext(r, ww))
                    } else {
                        (self.ar.zext(x, ww), self.ar.zext(y, ww), self.ar.zext(r, ww))
                    };
                    let full = self.ar.bin(op, ex, ey);
                    let e = self.ar.eq(full, er);
                    self.ar.not1(e)
                };
                if sat {
                    if signed {
                        let sx = self.ar.extract(w - 1, w - 1, x);
                        let neg = if op == Bin::Mul {
                            let sy = self.ar.extract(w - 1, w - 1, y);
                            let e = self.ar.eq(sx, sy);
                            self.ar.not1(e)
                        } else {
                            sx
                        };
                        let lo = self.ar.konst(1u128 << (w - 1), w);
                        let hi = self.ar.konst(mask(w - 1), w);
                        let k = self.ar.ite(neg, lo, hi);
                        let v = self.ar.ite(o, k, r);
                        return ret!(self.mkv(v));
                    }
                    let k = self.ar.konst(if op == Bin::Sub { 0 } else { mask(w) }, w);
                    let v = self.ar.ite(o, k, r);
                    return ret!(self.mkv(v));
                }
                let v = Val::A(Arc::new(vec![self.mkv(r), self.mkv(o)]));
                ret!(v)
            }
            "ctpop" => {
                if let Val::C(c) = a[0] {
                    return ret!(Val::C(c.count_ones() as u128));
                }
                let e = self.ex(&a[0], w);
                let mut r = self.ar.konst(0, w);
                for i in 0..w {
                    let b = self.ar.extract(i, i, e);
                    let z = self.ar.zext(b, w);
                    r = self.ar.bin(Bin::Add, r, z);
                }
                ret!(self.mkv(r))
            }
            "ctlz" | "cttz" => {
                if let Val::C(c) = a[0] {
                    let v = if base == "ctlz" {
                        if c == 0 {
                            w
                        } else {
                            c.leading_zeros() - (128 - w)
                        }
                    } else if c == 0 {
                        w
                    } else {
                        c.trailing_zeros()
                    };
                    return ret!(Val::C(v as u128));
                }
                let e = self.ex(&a[0], w);
                let mut r = self.ar.konst(w as u128, w);
                for j in 0..w {
                    // last examined bit has priority
                    let (bit, val) = if base == "ctlz" { (j, w - 1 - j) } else { (w - 1 - j, w - 1 - j) };
                    let b = self.ar.extract(bit, bit, e);
                    let k = self.ar.konst(val as u128, w);
                    r = self.ar.ite(b, k, r);
                }
                ret!(self.mkv(r))
            }
            "bswap" => {
                let e = self.ex(&a[0], w);
                let mut r: Option<Id> = None;
                for i in 0..w / 8 {
                    let b = self.ar.extract(8 * i + 7, 8 * i, e);
                    r = Some(match r {
                        None => b,
                        Some(h) => self.ar.concat(h, b),
                    });
                }
                let r = r.unwrap();
                ret!(self.mkv(r))
            }
            "bitreverse" => {
                let e = self.ex(&a[0], w);
                let mut r: Option<Id> = None;
                for i in 0..w {
                    let b = self.ar.extract(i, i, e);
                    r = Some(match r {
                        None => b,
                        Some(h) => self.ar.concat(h, b),
                    });
                }
                let r = r.unwrap();
                ret!(self.mkv(r))
            }
            "fshl" | "fshr" => {
                let s = (self.conc(st, &a[2])? % w as u128) as u32;
                let (h, l) = (self.ex(&a[0], w), self.ex(&a[1], w));
                let v = if base == "fshl" {
                    if s == 0 {
                        h
                    } else {
                        let x = self.ar.extract(w - 1 - s, 0, h);
                        let y = self.ar.extract(w - 1, w - s, l);
                        self.ar.concat(x, y)
                    }
                } else if s == 0 {
                    l
                } else {
                    let x = self.ar.extract(s - 1, 0, h);
                    let y = self.ar.extract(w - 1, s, l);
                    self.ar.concat(x, y)
                };
                ret!(self.mkv(v))
            }
            "fabs" => {
                let e = self.ex(&a[0], w);
                let m = self.ar.konst(mask(w - 1), w);
                let r = self.ar.bin(Bin::And, e, m);
                ret!(self.mkv(r))
            }
            "copysign" => {
                let e = self.ex(&a[0], w);
                let s = self.ex(&a[1], w);
                let lo = self.ar.extract(w - 2, 0, e);
                let hi = self.ar.extract(w - 1, w - 1, s);
                let r = self.ar.concat(hi, lo);
                ret!(self.mkv(r))
            }
            "fptoui" | "fptosi" => {
                // saturating conversions
                match &a[0] {
                    Val::C(c) => {
                        let f = if w == 32 { f32::from_bits(*c as u32) as f64 } else { f64::from_bits(*c as u64) };
                        let tw: u32 = n
                            .split('.')
                            .nth(2)
                            .and_then(|s| s.rsplit('i').next()?.parse().ok())
                            .ok_or(Stop::Unsup(n.to_string()))?;
                        let v = if base == "fptoui" {
                            let m = mask(tw) as f64;
                            if f.is_nan() || f <= 0.0 {
                                0
                            } else if f >= m {
                                mask(tw)
                            } else {
                                f as u128
                            }
                        } else {
                            let hi = mask(tw - 1);
                            if f.is_nan() {
                                0
                            } else if f >= hi as f64 {
                                hi
                            } else if f <= -(hi as f64) - 1.0 {
                                1u128 << (tw - 1)
                            } else {
                                (f as i128 as u128) & mask(tw)
                            }
                        };
                        ret!(Val::C(v))
                    }
                    Val::S(e) => {
                        let e = *e;
                        let tw: u32 = n
                            .split('.')
                            .nth(2)
                            .and_then(|s| s.rsplit('i').next()?.parse().ok())
                            .ok_or(Stop::Unsup(n.to_string()))?;
                        if tw > 64 {
                            let p = self.pin(st, &a[0], "conversion to 128 bits")?;
                            return self.intrinsic(st, n, tys, &[p]);
                        }
                        let ft = tys[0].clone();
                        let fl = |v: f64| -> Val {
                            Val::C(if w == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 })
                        };
                        // exact powers of two bound the range
                        let (lo, hi, lov, hiv) = if base == "fptoui" {
                            (fl(0.0), fl(2f64.powi(tw as i32)), 0, mask(tw))
                        } else {
                            (fl(-(2f64.powi(tw as i32 - 1))), fl(2f64.powi(tw as i32 - 1)), 1u128 << (tw - 1), mask(tw - 1))
                        };
                        let x = Val::S(e);
                        let nan = self.fcmp("uno", &ft, &x, &x)?;
                        let nan = self.ex(&nan, 1);
                        let below = self.fcmp("olt", &ft, &x, &lo)?;
                        let below = self.ex(&below, 1);
                        let above = self.fcmp("oge", &ft, &x, &hi)?;
                        let above = self.ex(&above, 1);
                        let k = if base == "fptoui" { K::F2U } else { K::F2S };
                        let mut r = self.ar.unary_f(k, e, tw);
                        let h = self.ar.konst(hiv, tw);
                        let l = self.ar.konst(lov, tw);
                        let z = self.ar.konst(0, tw);
                        r = self.ar.ite(above, h, r);
                        r = self.ar.ite(below, l, r);
                        r = self.ar.ite(nan, z, r);
                        ret!(self.mkv(r))
                    }
                    _ => Err(Stop::Unsup(n.to_string())),
                }
            }
            "maxnum" | "minnum" | "maximumnum" | "minimumnum" => {
                let ty = tys[0].clone();
                let p = if base.starts_with("max") { "ogt" } else { "olt" };
                let c = self.fcmp(p, &ty, &a[0], &a[1])?;
                let v = self.sel(&c, &ty, &a[0], &a[1])?;
                let yn = self.fcmp("uno", &ty, &a[1], &a[1])?;
                let v = self.sel(&yn, &ty, &a[0], &v)?;
                let xn = self.fcmp("uno", &ty, &a[0], &a[0])?;
                let v = self.sel(&xn, &ty, &a[1], &v)?;
                ret!(v)
            }
            "floor" | "ceil" | "trunc" | "rint" | "round" | "roundeven" | "nearbyint" | "sqrt" => {
                let k = match base {
                    "floor" => K::FFloor,
                    "ceil" => K::FCeil,
                    "trunc" => K::FToZero,
                    "round" => K::FAway,
                    "sqrt" => K::FSqrt,
                    _ => K::FEven,
                };
                match &a[0] {
                    Val::C(c) => ret!(Val::C(fconv(k, w, w, *c))),
                    Val::S(e) => {
                        let r = self.ar.unary_f(k, *e, w);
                        ret!(self.mkv(r))
                    }
                    _ => Err(Stop::Unsup(n.to_string())),
                }
            }
            "is" if n.starts_with("is.fpclass") => {
                let m = self.conc(st, &a[1])? as u32;
                let e = self.ex(&a[0], w);
                let (mant, one) = if w == 32 { (23, 0x7f80_0000u128) } else { (52, 0x7ff0_0000_0000_0000u128) };
                let k = self.ar.konst(mask(w - 1), w);
                let ab = self.ar.bin(Bin::And, e, k);
                let sign = self.ar.extract(w - 1, w - 1, e);
                let inf = self.ar.konst(one, w);
                let quiet = self.ar.konst(one | 1 << (mant - 1), w);
                let least = self.ar.konst(1 << mant, w);
                let zero = self.ar.konst(0, w);
                let nan = self.ar.icmp(Pred::Ugt, ab, inf);
                let qnan = self.ar.icmp(Pred::Uge, ab, quiet);
                let nq = self.ar.not1(qnan);
                let snan = self.ar.and1(nan, nq);
                let isinf = self.ar.eq(ab, inf);
                let iszero = self.ar.eq(ab, zero);
                let small = self.ar.icmp(Pred::Ult, ab, least);
                let nz = self.ar.not1(iszero);
                let sub = self.ar.and1(small, nz);
                let fin = self.ar.icmp(Pred::Ult, ab, inf);
                let ns = self.ar.not1(small);
                let normal = self.ar.and1(fin, ns);
                let pos = self.ar.not1(sign);
                let mut r = self.ar.bool(false);
                for (bit, c, side) in [
                    (0, snan, None),
                    (1, qnan, None),
                    (2, isinf, Some(sign)),
                    (3, normal, Some(sign)),
                    (4, sub, Some(sign)),
                    (5, iszero, Some(sign)),
                    (6, iszero, Some(pos)),
                    (7, sub, Some(pos)),
                    (8, normal, Some(pos)),
                    (9, isinf, Some(pos)),
                ] {
                    if m >> bit & 1 == 1 {
                        let c = match side {
                            Some(s) => self.ar.and1(c, s),
                            None => c,
                        };
                        r = self.ar.or1(r, c);
                    }
                }
                ret!(self.mkv(r))
            }
            "fma" | "fmuladd" | "powi" | "pow" | "exp" | "exp2" | "exp10" | "log" | "log2" | "log10" | "sin" | "cos"
            | "tan" => {
                let mut v = vec![];
                for x in a {
                    v.push(self.pin(st, x, base)?);
                }
                let r = libm(base, w, &v).ok_or(Stop::Unsup(format!("intrinsic {}", n)))?;
                ret!(Val::C(r))
            }
            "vector" if n.starts_with("vector.reduce.") => {
                let (_, et) = tys[0].field(0);
                let what = n.split('.').nth(2).unwrap_or("");
                let v = match &a[0] {
                    Val::A(v) => v.clone(),
                    _ => return Err(Stop::Unsup(n.to_string())),
                };
                let mut r = v[0].clone();
                for x in &v[1..] {
                    r = match what {
                        "or" => self.binop(st, Bin::Or, &et, &r, x)?,
                        "and" => self.binop(st, Bin::And, &et, &r, x)?,
                        "xor" => self.binop(st, Bin::Xor, &et, &r, x)?,
                        "add" => self.binop(st, Bin::Add, &et, &r, x)?,
                        "mul" => self.binop(st, Bin::Mul, &et, &r, x)?,
                        "umax" | "umin" | "smax" | "smin" => {
                            self.intrinsic(st, what, &[et.clone(), et.clone()], &[r, x.clone()])?
                        }
                        _ => return Err(Stop::Unsup(format!("intrinsic {}", n))),
                    };
                }
                ret!(r)
            }
            _ => Err(Stop::Unsup(format!("intrinsic {}", n))),
        }
    }
}

/// Integers of more than 128 bits: concrete, as the low and the high 128 bits.
fn wide_ty(t: &Ty) -> bool {
    matches!(t, Ty::Int(w) if *w > 128 && *w <= 256)
}
fn wide_of(v: &Val) -> (u128, u128) {
    match v {
        Val::C(c) => (*c, 0),
        Val::A(x) if x.len() == 2 => match (&x[0], &x[1]) {
            (Val::C(l), Val::C(h)) => (*l, *h),
            _ => (0, 0),
        },
        _ => (0, 0),
    }
}
fn wide_val(w: u32, l: u128, h: u128) -> Val {
    if w <= 128 {
        Val::C(l & mask(w))
    } else {
        Val::A(Arc::new(vec![Val::C(l), Val::C(h & mask(w - 128))]))
    }
}
fn mul_128(a: u128, b: u128) -> (u128, u128) {
    let m = u64::MAX as u128;
    let (al, ah, bl, bh) = (a & m, a >> 64, b & m, b >> 64);
    let (ll, lh, hl, hh) = (al * bl, al * bh, ah * bl, ah * bh);
    let mid = (ll >> 64) + (lh & m) + (hl & m);
    (ll & m | mid << 64, hh + (lh >> 64) + (hl >> 64) + (mid >> 64))
}
fn wide_bin(op: Bin, w: u32, x: &Val, y: &Val) -> Option<Val> {
    let ((a, b), (c, d)) = (wide_of(x), wide_of(y));
    let (l, h) = match op {
        Bin::Add => {
            let (l, k) = a.overflowing_add(c);
            (l, b.wrapping_add(d).wrapping_add(k as u128))
        }
        Bin::Sub => {
            let (l, k) = a.overflowing_sub(c);
            (l, b.wrapping_sub(d).wrapping_sub(k as u128))
        }
        Bin::Mul => {
            let (l, h) = mul_128(a, c);
            (l, h.wrapping_add(a.wrapping_mul(d)).wrapping_add(b.wrapping_mul(c)))
        }
        Bin::And => (a & c, b & d),
        Bin::Or => (a | c, b | d),
        Bin::Xor => (a ^ c, b ^ d),
        Bin::Shl if c < 128 && d == 0 => (a << c, if c == 0 { b } else { b << c | a >> (128 - c) }),
        Bin::Shl if c < 256 && d == 0 => (0, a << (c - 128)),
        Bin::LShr if c < 128 && d == 0 => (if c == 0 { a } else { a >> c | b << (128 - c) }, b >> c),
        Bin::LShr if c < 256 && d == 0 => (b >> (c - 128), 0),
        _ => return None,
    };
    Some(wide_val(w, l, h))
}
fn wide_cmp(p: Pred, w: u32, x: &Val, y: &Val) -> bool {
    let ((a, b), (c, d)) = (wide_of(x), wide_of(y));
    let s = |h: u128| sext(h, w - 128);
    match p {
        Pred::Eq => (a, b) == (c, d),
        Pred::Ne => (a, b) != (c, d),
        Pred::Ult => (b, a) < (d, c),
        Pred::Ule => (b, a) <= (d, c),
        Pred::Ugt => (b, a) > (d, c),
        Pred::Uge => (b, a) >= (d, c),
        Pred::Slt => (s(b), a) < (s(d), c),
        Pred::Sle => (s(b), a) <= (s(d), c),
        Pred::Sgt => (s(b), a) > (s(d), c),
        Pred::Sge => (s(b), a) >= (s(d), c),
    }
}
fn wide_cast(c: Cast, fw: u32, tw: u32, x: &Val) -> Option<Val> {
    let (l, h) = wide_of(x);
    match c {
        Cast::Trunc | Cast::ZExt => Some(wide_val(tw, l, h)),
        Cast::SExt if fw <= 128 => {
            let v = sext(l, fw);
            Some(wide_val(tw, v as u128, if v < 0 { u128::MAX } else { 0 }))
        }
        _ => None,
    }
}

/// Functions of floating point numbers, on numbers.
fn libm(name: &str, w: u32, v: &[Val]) -> Option<u128> {
    let num = |i: usize| -> Option<f64> {
        match v.get(i)? {
            Val::C(c) if w == 32 => Some(f32::from_bits(*c as u32) as f64),
            Val::C(c) => Some(f64::from_bits(*c as u64)),
            _ => None,
        }
    };
    let x = num(0)?;
    if w == 32 {
        let f = x as f32;
        let g = || num(1).map(|y| y as f32);
        let r = match name {
            "fma" => f.mul_add(g()?, num(2)? as f32),
            "fmuladd" => f * g()? + num(2)? as f32,
            "powi" => match v.get(1)? {
                Val::C(n) => f.powi(*n as u32 as i32),
                _ => return None,
            },
            "pow" => f.powf(g()?),
            "exp" => f.exp(),
            "exp2" => f.exp2(),
            "log" => f.ln(),
            "log2" => f.log2(),
            "log10" => f.log10(),
            "sin" => f.sin(),
            "cos" => f.cos(),
            "tan" => f.tan(),
            "asin" => f.asin(),
            "acos" => f.acos(),
            "atan" => f.atan(),
            "atan2" => f.atan2(g()?),
            "hypot" => f.hypot(g()?),
            "cbrt" => f.cbrt(),
            "fmod" => f % g()?,
            "floor" => f.floor(),
            "ceil" => f.ceil(),
            "round" => f.round(),
            "trunc" => f.trunc(),
            "rint" | "roundeven" | "nearbyint" => f.round_ties_even(),
            "sqrt" => f.sqrt(),
            _ => return None,
        };
        return Some(r.to_bits() as u128);
    }
    let r = match name {
        "fma" => x.mul_add(num(1)?, num(2)?),
        "fmuladd" => x * num(1)? + num(2)?,
        "powi" => match v.get(1)? {
            Val::C(n) => x.powi(*n as u32 as i32),
            _ => return None,
        },
        "pow" => x.powf(num(1)?),
        "exp" => x.exp(),
        "exp2" => x.exp2(),
        "log" => x.ln(),
        "log2" => x.log2(),
        "log10" => x.log10(),
        "sin" => x.sin(),
        "cos" => x.cos(),
        "tan" => x.tan(),
        "asin" => x.asin(),
        "acos" => x.acos(),
        "atan" => x.atan(),
        "atan2" => x.atan2(num(1)?),
        "hypot" => x.hypot(num(1)?),
        "cbrt" => x.cbrt(),
        "fmod" => x % num(1)?,
        "floor" => x.floor(),
        "ceil" => x.ceil(),
        "round" => x.round(),
        "trunc" => x.trunc(),
        "rint" | "roundeven" | "nearbyint" => x.round_ties_even(),
        "sqrt" => x.sqrt(),
        _ => return None,
    };
    Some(r.to_bits() as u128)
}

pub fn set_model(m: &mut Vec<u64>, v: u32, x: u64) {
    while m.len() <= v as usize {
        m.push(0);
    }
    m[v as usize] = x;
}

fn icmp_c(p: Pred, w: u32, a: u128, b: u128) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sext(a, w) < sext(b, w),
        Pred::Sle => sext(a, w) <= sext(b, w),
        Pred::Sgt => sext(a, w) > sext(b, w),
        Pred::Sge => sext(a, w) >= sext(b, w),
    }
}

fn ovf(op: Bin, signed: bool, w: u32, x: u128, y: u128) -> (u128, bool) {
    if signed {
        let (p, q) = (sext(x, w), sext(y, w));
        let f = match op {
            Bin::Add => p + q,
            Bin::Sub => p - q,
            _ => p * q,
        };
        let r = f as u128 & mask(w);
        (r, sext(r, w) != f)
    } else {
        match op {
            Bin::Add => {
                let f = x + y;
                (f & mask(w), f > mask(w))
            }
            Bin::Sub => (x.wrapping_sub(y) & mask(w), x < y),
            _ => {
                let f = x * y;
                (f & mask(w), f > mask(w))
            }
        }
    }
}

fn init_bytes(b: &mut [u8], off: usize, ty: &Ty, v: &Val) {
    match v {
        Val::C(c) => {
            let n = ty.store_bytes() as usize;
            for i in 0..n {
                b[off + i] = (*c >> (8 * i)) as u8;
            }
        }
        Val::A(x) => {
            for (i, e) in x.iter().enumerate() {
                let (o, t) = ty.field(i as u64);
                init_bytes(b, off + o as usize, &t, e);
            }
        }
        Val::S(_) => {}
    }
}
