//! z3 through its C API: satisfiability of conjunctions of width-1 expressions.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, t: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, t: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
}

extern "C" fn on_error(_c: P, e: c_int) {
    eprintln!("z3 error {}", e);
}

#[derive(Default, Clone, Debug)]
pub struct SolverStats {
    pub z3_calls: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub z3_unknown: u64,
    pub z3_secs: f64,
    pub z3_max: f64,
    pub cache_hits: u64,
    pub dom_decided: u64,
    pub xchecked: u64,
}

pub enum Res {
    Sat(Vec<(u32, u64)>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    s: P,
    sf: P,
    cache: HashMap<Id, P>,
    vars: HashMap<u32, P>,
    asts: usize,
    pub timeout_ms: u32,
    pub st: SolverStats,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let sf = Z3_mk_solver(c);
            Z3_solver_inc_ref(c, sf);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3_solver_set_params(c, sf, p);
            Z3 { c, s, sf, cache: HashMap::new(), vars: HashMap::new(), asts: 0, timeout_ms, st: Default::default() }
        }
    }
    fn recreate(&mut self) {
        let t = self.timeout_ms;
        let st = self.st.clone();
        let n = Z3::new(t);
        let old = std::mem::replace(self, n);
        drop(old);
        self.st = st;
    }
    fn bv(&mut self, v: u128, w: u32) -> P {
        unsafe {
            let so = Z3_mk_bv_sort(self.c, w);
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, v as u64, so)
            } else {
                let s = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), so)
            }
        }
    }
    fn var(&mut self, v: u32, w: u32) -> P {
        if let Some(p) = self.vars.get(&v) {
            return *p;
        }
        unsafe {
            let n = CString::new(format!("v{}", v)).unwrap();
            let so = if w == 1 { Z3_mk_bool_sort(self.c) } else { Z3_mk_bv_sort(self.c, w) };
            let p = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), so);
            self.vars.insert(v, p);
            p
        }
    }
    fn tobv(&mut self, ar: &Arena, id: Id) -> P {
        let p = self.tr(ar, id);
        if ar.w(id) == 1 {
            let o = self.bv(1, 1);
            let z = self.bv(0, 1);
            unsafe { Z3_mk_ite(self.c, p, o, z) }
        } else {
            p
        }
    }
    fn frombv(&mut self, w: u32, p: P) -> P {
        if w == 1 {
            let o = self.bv(1, 1);
            unsafe { Z3_mk_eq(self.c, p, o) }
        } else {
            p
        }
    }
    fn fsort(&self, w: u32) -> P {
        unsafe {
            if w == 32 {
                Z3_mk_fpa_sort(self.c, 8, 24)
            } else {
                Z3_mk_fpa_sort(self.c, 11, 53)
            }
        }
    }
    /// Width-1 expressions become z3 Bools, others bit-vectors.
    fn tr(&mut self, ar: &Arena, id: Id) -> P {
        if let Some(p) = self.cache.get(&id) {
            return *p;
        }
        let n = ar.nodes[id as usize];
        let w = n.w as u32;
        let c = self.c;
        self.asts += 1;
        let p = unsafe {
            match n.k {
                K::Const => {
                    let v = ar.consts[n.a as usize];
                    if w == 1 {
                        if v == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        self.bv(v, w)
                    }
                }
                K::Var => self.var(n.a, w),
                K::And | K::Or | K::Xor if w == 1 => {
                    let a = self.tr(ar, n.a);
                    let b = self.tr(ar, n.b);
                    match n.k {
                        K::And => Z3_mk_and(c, 2, [a, b].as_ptr()),
                        K::Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                        _ => {
                            if ar.as_const(n.b) == Some(1) {
                                Z3_mk_not(c, a)
                            } else {
                                Z3_mk_xor(c, a, b)
                            }
                        }
                    }
                }
                K::Eq => {
                    let a = self.tr(ar, n.a);
                    let b = self.tr(ar, n.b);
                    Z3_mk_eq(c, a, b)
                }
                K::Ult | K::Ule | K::Slt | K::Sle => {
                    let a = self.tobv(ar, n.a);
                    let b = self.tobv(ar, n.b);
                    match n.k {
                        K::Ult => Z3_mk_bvult(c, a, b),
                        K::Ule => Z3_mk_bvule(c, a, b),
                        K::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                K::Ite => {
                    let a = self.tr(ar, n.a);
                    let b = self.tr(ar, n.b);
                    let d = self.tr(ar, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                K::Extract => {
                    let a = self.tobv(ar, n.a);
                    let e = Z3_mk_extract(c, n.b + w - 1, n.b, a);
                    self.frombv(w, e)
                }
                K::Concat => {
                    let a = self.tobv(ar, n.a);
                    let b = self.tobv(ar, n.b);
                    Z3_mk_concat(c, a, b)
                }
                K::ZExt => {
                    let a = self.tobv(ar, n.a);
                    Z3_mk_zero_ext(c, w - ar.w(n.a), a)
                }
                K::SExt => {
                    let a = self.tobv(ar, n.a);
                    Z3_mk_sign_ext(c, w - ar.w(n.a), a)
                }
                K::Lut => {
                    let a = self.tobv(ar, n.a);
                    let aw = ar.w(n.a);
                    let t = ar.luts[n.b as usize].clone();
                    let cnt = 1usize << aw;
                    // most frequent value is the default
                    let mut freq: HashMap<u64, u32> = HashMap::new();
                    for i in 0..cnt {
                        *freq.entry(t[i]).or_default() += 1;
                    }
                    let mut fv: Vec<(u64, u32)> = freq.into_iter().collect();
                    fv.sort_by_key(|x| (std::cmp::Reverse(x.1), x.0));
                    let kk = |me: &mut Z3, v: u64| -> P {
                        if w == 1 {
                            if v & 1 == 1 {
                                Z3_mk_true(me.c)
                            } else {
                                Z3_mk_false(me.c)
                            }
                        } else {
                            me.bv(v as u128, w)
                        }
                    };
                    let mut acc = kk(self, fv[0].0);
                    for (v, _) in &fv[1..] {
                        let mut set = [0u64; 4];
                        for i in 0..cnt {
                            if t[i] == *v {
                                set[i / 64] |= 1 << (i % 64);
                            }
                        }
                        let cnd = self.set_to_z3(a, aw, &set);
                        let vv = kk(self, *v);
                        acc = Z3_mk_ite(c, cnd, vv, acc);
                    }
                    acc
                }
                K::FAdd | K::FSub | K::FMul | K::FDiv => {
                    let a = self.tr(ar, n.a);
                    let b = self.tr(ar, n.b);
                    let so = self.fsort(w);
                    let fa = Z3_mk_fpa_to_fp_bv(c, a, so);
                    let fb = Z3_mk_fpa_to_fp_bv(c, b, so);
                    let rm = Z3_mk_fpa_rne(c);
                    let r = match n.k {
                        K::FAdd => Z3_mk_fpa_add(c, rm, fa, fb),
                        K::FSub => Z3_mk_fpa_sub(c, rm, fa, fb),
                        K::FMul => Z3_mk_fpa_mul(c, rm, fa, fb),
                        _ => Z3_mk_fpa_div(c, rm, fa, fb),
                    };
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                K::U2F | K::S2F => {
                    let a = self.tobv(ar, n.a);
                    let rm = Z3_mk_fpa_rne(c);
                    let so = self.fsort(w);
                    let r = if n.k == K::U2F {
                        Z3_mk_fpa_to_fp_unsigned(c, rm, a, so)
                    } else {
                        Z3_mk_fpa_to_fp_signed(c, rm, a, so)
                    };
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                K::F2U | K::F2S => {
                    let a = self.tr(ar, n.a);
                    let so = self.fsort(ar.w(n.a));
                    let f = Z3_mk_fpa_to_fp_bv(c, a, so);
                    let rm = Z3_mk_fpa_rtz(c);
                    if n.k == K::F2U {
                        Z3_mk_fpa_to_ubv(c, rm, f, w)
                    } else {
                        Z3_mk_fpa_to_sbv(c, rm, f, w)
                    }
                }
                K::FFloor | K::FCeil | K::FToZero | K::FAway | K::FEven | K::FSqrt => {
                    let a = self.tr(ar, n.a);
                    let so = self.fsort(w);
                    let f = Z3_mk_fpa_to_fp_bv(c, a, so);
                    let r = match n.k {
                        K::FFloor => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), f),
                        K::FCeil => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), f),
                        K::FToZero => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), f),
                        K::FAway => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), f),
                        K::FEven => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rne(c), f),
                        _ => Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), f),
                    };
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                K::FExt | K::FTrunc => {
                    let a = self.tr(ar, n.a);
                    let so = self.fsort(ar.w(n.a));
                    let f = Z3_mk_fpa_to_fp_bv(c, a, so);
                    let rm = Z3_mk_fpa_rne(c);
                    let r = Z3_mk_fpa_to_fp_float(c, rm, f, self.fsort(w));
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                k => {
                    let a = self.tobv(ar, n.a);
                    let b = self.tobv(ar, n.b);
                    let r = match k {
                        K::Add => Z3_mk_bvadd(c, a, b),
                        K::Sub => Z3_mk_bvsub(c, a, b),
                        K::Mul => Z3_mk_bvmul(c, a, b),
                        K::UDiv => Z3_mk_bvudiv(c, a, b),
                        K::SDiv => Z3_mk_bvsdiv(c, a, b),
                        K::URem => Z3_mk_bvurem(c, a, b),
                        K::SRem => Z3_mk_bvsrem(c, a, b),
                        K::Shl => Z3_mk_bvshl(c, a, b),
                        K::LShr => Z3_mk_bvlshr(c, a, b),
                        K::AShr => Z3_mk_bvashr(c, a, b),
                        K::And => Z3_mk_bvand(c, a, b),
                        K::Or => Z3_mk_bvor(c, a, b),
                        K::Xor => Z3_mk_bvxor(c, a, b),
                        _ => unreachable!("{:?}", k),
                    };
                    self.frombv(w, r)
                }
            }
        };
        self.cache.insert(id, p);
        p
    }
    fn set_to_z3(&mut self, a: P, w: u32, set: &Set256) -> P {
        let cnt = 1usize << w;
        let has = |i: usize| set[i / 64] >> (i % 64) & 1 == 1;
        let mut parts = vec![];
        let mut i = 0;
        while i < cnt {
            if !has(i) {
                i += 1;
                continue;
            }
            let st = i;
            while i < cnt && has(i) {
                i += 1;
            }
            let e = i - 1;
            unsafe {
                let lo = self.bv(st as u128, w);
                if st == e {
                    parts.push(Z3_mk_eq(self.c, a, lo));
                } else {
                    let hi = self.bv(e as u128, w);
                    let x = Z3_mk_bvule(self.c, lo, a);
                    let y = Z3_mk_bvule(self.c, a, hi);
                    parts.push(Z3_mk_and(self.c, 2, [x, y].as_ptr()));
                }
            }
        }
        unsafe {
            match parts.len() {
                0 => Z3_mk_false(self.c),
                1 => parts[0],
                n => Z3_mk_or(self.c, n as c_uint, parts.as_ptr()),
            }
        }
    }
    /// Satisfiability of the conjunction; `doms` restrict small variables.
    pub fn check(&mut self, ar: &Arena, cons: &[Id], doms: &[(u32, Set256)], vars: &[u32]) -> Res {
        if self.asts > 400_000 {
            self.recreate();
        }
        let fl = cons.iter().any(|c| ar.has_float(*c));
        let t0 = Instant::now();
        let s = if fl { self.sf } else { self.s };
        unsafe {
            Z3_solver_push(self.c, s);
            for (v, set) in doms {
                let w = ar.var_w[*v as usize];
                let mut p = self.var(*v, w);
                if w == 1 {
                    let o = self.bv(1, 1);
                    let z = self.bv(0, 1);
                    p = Z3_mk_ite(self.c, p, o, z);
                }
                let a = self.set_to_z3(p, w, set);
                Z3_solver_assert(self.c, s, a);
            }
            for c in cons {
                let p = self.tr(ar, *c);
                Z3_solver_assert(self.c, s, p);
            }
            let r = Z3_solver_check(self.c, s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut v = vec![];
                    for x in vars {
                        let w = ar.var_w[*x as usize];
                        let mut p = self.var(*x, w);
                        if w == 1 {
                            let o = self.bv(1, 1);
                            let z = self.bv(0, 1);
                            p = Z3_mk_ite(self.c, p, o, z);
                        }
                        let mut o: P = std::ptr::null_mut();
                        let mut val = 0u64;
                        if Z3_model_eval(self.c, m, p, true, &mut o) && Z3_get_numeral_uint64(self.c, o, &mut val) {
                            v.push((*x, val));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.st.z3_sat += 1;
                    Res::Sat(v)
                }
                -1 => {
                    self.st.z3_unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.st.z3_unknown += 1;
                    Res::Unknown
                }
            };
            Z3_solver_pop(self.c, s, 1);
            if Z3_get_error_code(self.c) != 0 {
                self.st.z3_unknown += 1;
                return Res::Unknown;
            }
            let d = t0.elapsed().as_secs_f64();
            self.st.z3_calls += 1;
            self.st.z3_secs += d;
            if d > self.st.z3_max {
                self.st.z3_max = d;
            }
            out
        }
    }
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            Z3_solver_dec_ref(self.c, self.sf);
            Z3_del_context(self.c);
        }
    }
}
