//! Hash-consed bit-vector expressions with local simplification.

use crate::ir::{mask, sext, Bin, Pred};
use std::collections::HashMap;
use std::rc::Rc;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Extract,
    Concat,
    ZExt,
    SExt,
    Lut,
    FAdd,
    FSub,
    FMul,
    FDiv,
    U2F,
    S2F,
    F2U,
    F2S,
    FExt,
    FTrunc,
    FFloor,
    FCeil,
    FToZero,
    FAway,
    FEven,
    FSqrt,
}

impl K {
    pub fn children(self) -> usize {
        match self {
            K::Const | K::Var => 0,
            K::Extract | K::ZExt | K::SExt | K::Lut | K::U2F | K::S2F | K::F2U | K::F2S | K::FExt | K::FTrunc | K::FFloor | K::FCeil | K::FToZero | K::FAway | K::FEven | K::FSqrt => 1,
            K::Ite => 3,
            _ => 2,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub k: K,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sup {
    None,
    One(u32),
    Many,
}

pub type Set256 = [u64; 4];
pub const FULL: Set256 = [u64::MAX; 4];

pub struct Arena {
    pub nodes: Vec<Node>,
    pub sup: Vec<Sup>,
    /// structural hash: the same in every thread
    pub hs: Vec<u64>,
    var_seq: Vec<u32>,
    map: HashMap<Node, Id>,
    pub consts: Vec<u128>,
    cmap: HashMap<u128, u32>,
    pub luts: Vec<Rc<[u64; 256]>>,
    lmap: HashMap<Rc<[u64; 256]>, u32>,
    pub var_w: Vec<u32>,
    sets: HashMap<Id, Set256>,
    pub varsets: HashMap<Id, Rc<Vec<u32>>>,
}

fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

fn lo64(v: u128) -> u64 {
    v as u64
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            nodes: vec![],
            sup: vec![],
            hs: vec![],
            var_seq: vec![],
            map: HashMap::new(),
            consts: vec![],
            cmap: HashMap::new(),
            luts: vec![],
            lmap: HashMap::new(),
            var_w: vec![],
            sets: HashMap::new(),
            varsets: HashMap::new(),
        };
        // id 0 is reserved so that 0 can mean "concrete" in memory
        a.nodes.push(Node { k: K::Const, w: 1, a: 0, b: 0, c: 77 });
        a.sup.push(Sup::None);
        a.hs.push(1);
        a.consts.push(0);
        a.cmap.insert(0, 0);
        a
    }
    fn mk(&mut self, n: Node) -> Id {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let join = |x: Sup, y: Sup| match (x, y) {
            (Sup::None, s) | (s, Sup::None) => s,
            (Sup::One(a), Sup::One(b)) if a == b => Sup::One(a),
            _ => Sup::Many,
        };
        let s = match n.k {
            K::Const => Sup::None,
            K::Var => {
                if self.var_w[n.a as usize] <= 8 {
                    Sup::One(n.a)
                } else {
                    Sup::Many
                }
            }
            K::Extract | K::ZExt | K::SExt | K::Lut | K::U2F | K::S2F | K::F2U | K::F2S | K::FExt | K::FTrunc | K::FFloor | K::FCeil | K::FToZero | K::FAway | K::FEven | K::FSqrt => {
                self.sup[n.a as usize]
            }
            K::Ite => join(join(self.sup[n.a as usize], self.sup[n.b as usize]), self.sup[n.c as usize]),
            _ => join(self.sup[n.a as usize], self.sup[n.b as usize]),
        };
        let h = {
            let ha = |i: u32| self.hs[i as usize];
            let base = mix(n.k as u64 * 131 + n.w as u64);
            match n.k {
                K::Const => {
                    let c = self.consts[n.a as usize];
                    mix(mix(base ^ c as u64) ^ (c >> 64) as u64)
                }
                K::Var => mix(base ^ mix(self.var_seq[n.a as usize] as u64 + 1)),
                K::Extract | K::ZExt | K::SExt | K::U2F | K::S2F | K::F2U | K::F2S | K::FExt | K::FTrunc | K::FFloor | K::FCeil | K::FToZero | K::FAway | K::FEven | K::FSqrt => {
                    mix(base ^ mix(ha(n.a)) ^ (n.b as u64))
                }
                K::Lut => {
                    let t = &self.luts[n.b as usize];
                    let mut x = mix(base ^ mix(ha(n.a)));
                    for v in t.iter() {
                        x = mix(x ^ v);
                    }
                    x
                }
                K::Ite => mix(base ^ mix(mix(mix(ha(n.a)) ^ ha(n.b)) ^ ha(n.c))),
                _ => mix(base ^ mix(mix(ha(n.a)) ^ ha(n.b))),
            }
        };
        let id = self.nodes.len() as u32;
        self.nodes.push(n);
        self.sup.push(s);
        self.hs.push(h);
        self.map.insert(n, id);
        id
    }
    fn n(&self, i: Id) -> Node {
        self.nodes[i as usize]
    }
    pub fn w(&self, i: Id) -> u32 {
        self.nodes[i as usize].w as u32
    }
    pub fn konst(&mut self, v: u128, w: u32) -> Id {
        let v = v & mask(w);
        let ci = match self.cmap.get(&v) {
            Some(&c) => c,
            None => {
                let c = self.consts.len() as u32;
                self.consts.push(v);
                self.cmap.insert(v, c);
                c
            }
        };
        self.mk(Node { k: K::Const, w: w as u16, a: ci, b: 0, c: 0 })
    }
    pub fn bool(&mut self, b: bool) -> Id {
        self.konst(b as u128, 1)
    }
    pub fn as_const(&self, i: Id) -> Option<u128> {
        let n = self.nodes[i as usize];
        if n.k == K::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn var_seq(&mut self, idx: u32, w: u32, seq: u32) -> Id {
        while self.var_seq.len() <= idx as usize {
            self.var_seq.push(0);
        }
        self.var_seq[idx as usize] = seq;
        self.var(idx, w)
    }
    pub fn var(&mut self, idx: u32, w: u32) -> Id {
        while self.var_w.len() <= idx as usize {
            self.var_w.push(0);
        }
        if self.var_w[idx as usize] == 0 {
            self.var_w[idx as usize] = w;
        }
        assert!(self.var_w[idx as usize] == w, "variable width changed");
        self.mk(Node { k: K::Var, w: w as u16, a: idx, b: 0, c: 0 })
    }
    fn raw(&mut self, k: K, w: u32, a: Id, b: Id) -> Id {
        self.mk(Node { k, w: w as u16, a, b, c: 0 })
    }

    pub fn not1(&mut self, a: Id) -> Id {
        let one = self.konst(1, 1);
        self.xor(a, one)
    }
    pub fn xor(&mut self, a: Id, b: Id) -> Id {
        self.bin(Bin::Xor, a, b)
    }
    pub fn and1(&mut self, a: Id, b: Id) -> Id {
        self.bin(Bin::And, a, b)
    }
    pub fn or1(&mut self, a: Id, b: Id) -> Id {
        self.bin(Bin::Or, a, b)
    }

    pub fn bin(&mut self, op: Bin, mut a: Id, mut b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let comm = matches!(op, Bin::Add | Bin::Mul | Bin::And | Bin::Or | Bin::Xor);
        let (mut ca, mut cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(v) = fold(op, w, x, y) {
                return self.konst(v, w);
            }
        }
        if comm && (ca.is_some() || (cb.is_none() && self.hs[a as usize] > self.hs[b as usize])) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let k = match op {
            Bin::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    let na = self.n(a);
                    if na.k == K::Add {
                        if let Some(z) = self.as_const(na.b) {
                            let c = self.konst(y.wrapping_add(z), w);
                            return self.bin(Bin::Add, na.a, c);
                        }
                    }
                    if na.k == K::Ite {
                        if let (Some(_), Some(_)) = (self.as_const(na.b), self.as_const(na.c)) {
                            let t = self.bin(Bin::Add, na.b, b);
                            let e = self.bin(Bin::Add, na.c, b);
                            return self.ite(na.a, t, e);
                        }
                    }
                }
                if w == 1 {
                    return self.bin(Bin::Xor, a, b);
                }
                K::Add
            }
            Bin::Sub => {
                if let Some(y) = cb {
                    let c = self.konst(y.wrapping_neg(), w);
                    return self.bin(Bin::Add, a, c);
                }
                if a == b {
                    return self.konst(0, w);
                }
                // (x + c) - x
                let (na, nb) = (self.n(a), self.n(b));
                if na.k == K::Add && na.a == b {
                    return na.b;
                }
                if na.k == K::Add && nb.k == K::Add && na.a == nb.a {
                    return self.bin(Bin::Sub, na.b, nb.b);
                }
                K::Sub
            }
            Bin::Mul => {
                match cb {
                    Some(0) => return b,
                    Some(1) => return a,
                    Some(y) if y.is_power_of_two() => {
                        let c = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(Bin::Shl, a, c);
                    }
                    _ => {}
                }
                K::Mul
            }
            Bin::UDiv => {
                match cb {
                    Some(1) => return a,
                    Some(y) if y.is_power_of_two() => {
                        let c = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(Bin::LShr, a, c);
                    }
                    _ => {}
                }
                K::UDiv
            }
            Bin::URem => {
                match cb {
                    Some(1) => return self.konst(0, w),
                    Some(y) if y.is_power_of_two() => {
                        let c = self.konst(y - 1, w);
                        return self.bin(Bin::And, a, c);
                    }
                    _ => {}
                }
                K::URem
            }
            Bin::SDiv => K::SDiv,
            Bin::SRem => K::SRem,
            Bin::Shl | Bin::LShr | Bin::AShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    let y = y as u32;
                    if cb.unwrap() >= w as u128 {
                        return self.konst(0, w); // poison in IR
                    }
                    if op == Bin::LShr {
                        let e = self.extract(w - 1, y, a);
                        return self.zext(e, w);
                    }
                    if op == Bin::Shl {
                        let e = self.extract(w - 1 - y, 0, a);
                        let z = self.konst(0, y);
                        return self.concat(e, z);
                    }
                    let e = self.extract(w - 1, y, a);
                    return self.sext(e, w);
                }
                match op {
                    Bin::Shl => K::Shl,
                    Bin::LShr => K::LShr,
                    _ => K::AShr,
                }
            }
            Bin::And => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == mask(w) {
                        return a;
                    }
                    if (y + 1).is_power_of_two() {
                        let n = y.count_ones();
                        let e = self.extract(n - 1, 0, a);
                        return self.zext(e, w);
                    }
                    let na = self.n(a);
                    if na.k == K::And {
                        if let Some(z) = self.as_const(na.b) {
                            let c = self.konst(y & z, w);
                            return self.bin(Bin::And, na.a, c);
                        }
                    }
                    if na.k == K::ZExt {
                        let iw = self.w(na.a);
                        let c = self.konst(y, iw);
                        let r = self.bin(Bin::And, na.a, c);
                        return self.zext(r, w);
                    }
                    // contiguous mask with low zeros: concat
                    let tz = y.trailing_zeros();
                    let m = y >> tz;
                    if (m + 1).is_power_of_two() {
                        let n = m.count_ones();
                        let e = self.extract(tz + n - 1, tz, a);
                        let z = self.konst(0, tz);
                        let c = self.concat(e, z);
                        return self.zext(c, w);
                    }
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.konst(0, 1);
                }
                K::And
            }
            Bin::Or => {
                if a == b {
                    return a;
                }
                match cb {
                    Some(0) => return a,
                    Some(y) if y == mask(w) => return b,
                    _ => {}
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.konst(1, 1);
                }
                // disjoint or: concat(x,0_n) | zext(y<=n bits)
                for (p, q) in [(a, b), (b, a)] {
                    let np = self.n(p);
                    let nq = self.n(q);
                    if np.k == K::Concat && self.as_const(np.b) == Some(0) {
                        let lw = self.w(np.b);
                        if nq.k == K::ZExt && self.w(nq.a) <= lw {
                            let y = self.zext(nq.a, lw);
                            return self.concat(np.a, y);
                        }
                        if let Some(c) = self.as_const(q) {
                            if c <= mask(lw) {
                                let y = self.konst(c, lw);
                                return self.concat(np.a, y);
                            }
                        }
                    }
                    if np.k == K::ZExt && nq.k != K::Const {
                        let ni = self.n(np.a);
                        let iw = self.w(np.a);
                        if ni.k == K::Concat && self.as_const(ni.b) == Some(0) {
                            let lw = self.w(ni.b);
                            if nq.k == K::ZExt && self.w(nq.a) <= lw {
                                let y = self.zext(nq.a, lw);
                                let c = self.concat(ni.a, y);
                                return self.zext(c, w);
                            }
                            if nq.k == K::ZExt && self.w(nq.a) <= iw {
                                let y = self.zext(nq.a, iw);
                                let c = self.bin(Bin::Or, np.a, y);
                                return self.zext(c, w);
                            }
                        }
                    }
                }
                K::Or
            }
            Bin::Xor => {
                if a == b {
                    return self.konst(0, w);
                }
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    let na = self.n(a);
                    if na.k == K::Xor {
                        if let Some(z) = self.as_const(na.b) {
                            let c = self.konst(y ^ z, w);
                            return self.bin(Bin::Xor, na.a, c);
                        }
                    }
                    if w == 1 {
                        // not of a comparison
                        match na.k {
                            K::Ult => return self.raw_cmp(K::Ule, na.b, na.a),
                            K::Ule => return self.raw_cmp(K::Ult, na.b, na.a),
                            K::Slt => return self.raw_cmp(K::Sle, na.b, na.a),
                            K::Sle => return self.raw_cmp(K::Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                }
                K::Xor
            }
            Bin::FAdd => K::FAdd,
            Bin::FSub => K::FSub,
            Bin::FMul => K::FMul,
            Bin::FDiv => K::FDiv,
            Bin::FRem => K::FDiv, // not supported symbolically; caller refuses
        };
        self.raw(k, w, a, b)
    }
    fn raw_cmp(&mut self, k: K, a: Id, b: Id) -> Id {
        self.cmp_k(k, a, b)
    }
    fn is_not_of(&self, a: Id, b: Id) -> bool {
        let n = self.n(a);
        let m = self.n(b);
        (n.k == K::Xor && n.a == b && self.as_const(n.b) == Some(1))
            || (m.k == K::Xor && m.a == a && self.as_const(m.b) == Some(1))
    }

    pub fn icmp(&mut self, p: Pred, a: Id, b: Id) -> Id {
        match p {
            Pred::Eq => self.eq(a, b),
            Pred::Ne => {
                let e = self.eq(a, b);
                self.not1(e)
            }
            Pred::Ult => self.cmp_k(K::Ult, a, b),
            Pred::Ule => self.cmp_k(K::Ule, a, b),
            Pred::Ugt => self.cmp_k(K::Ult, b, a),
            Pred::Uge => self.cmp_k(K::Ule, b, a),
            Pred::Slt => self.cmp_k(K::Slt, a, b),
            Pred::Sle => self.cmp_k(K::Sle, a, b),
            Pred::Sgt => self.cmp_k(K::Slt, b, a),
            Pred::Sge => self.cmp_k(K::Sle, b, a),
        }
    }
    pub fn eq(&mut self, mut a: Id, mut b: Id) -> Id {
        if a == b {
            return self.bool(true);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if self.as_const(a).is_some() || (self.as_const(b).is_none() && self.hs[a as usize] > self.hs[b as usize]) {
            std::mem::swap(&mut a, &mut b);
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.bool(x == y);
        }
        let na = self.n(a);
        if let Some(y) = self.as_const(b) {
            if w == 1 {
                return if y == 1 { a } else { self.not1(a) };
            }
            match na.k {
                K::ZExt => {
                    let iw = self.w(na.a);
                    if y > mask(iw) {
                        return self.bool(false);
                    }
                    let c = self.konst(y, iw);
                    return self.eq(na.a, c);
                }
                K::SExt => {
                    let iw = self.w(na.a);
                    let t = y & mask(iw);
                    if (sext(t, iw) as u128) & mask(w) != y {
                        return self.bool(false);
                    }
                    let c = self.konst(t, iw);
                    return self.eq(na.a, c);
                }
                K::Add => {
                    if let Some(z) = self.as_const(na.b) {
                        let c = self.konst(y.wrapping_sub(z), w);
                        return self.eq(na.a, c);
                    }
                }
                K::Xor => {
                    if let Some(z) = self.as_const(na.b) {
                        let c = self.konst(y ^ z, w);
                        return self.eq(na.a, c);
                    }
                }
                K::Ite => {
                    let (t, e) = (self.as_const(na.b), self.as_const(na.c));
                    if t.is_some() || e.is_some() {
                        let x = self.eq(na.b, b);
                        let z = self.eq(na.c, b);
                        return self.ite(na.a, x, z);
                    }
                }
                K::Concat => {
                    let lw = self.w(na.b);
                    let hw = w - lw;
                    let ch = self.konst(y >> lw, hw);
                    let cl = self.konst(y, lw);
                    let h = self.eq(na.a, ch);
                    let l = self.eq(na.b, cl);
                    return self.and1(h, l);
                }
                _ => {}
            }
        } else {
            let nb = self.n(b);
            if na.k == K::ZExt && nb.k == K::ZExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if na.k == K::Concat && nb.k == K::Concat && self.w(na.b) == self.w(nb.b) {
                let h = self.eq(na.a, nb.a);
                let l = self.eq(na.b, nb.b);
                return self.and1(h, l);
            }
        }
        if w == 1 {
            let x = self.xor(a, b);
            return self.not1(x);
        }
        self.raw(K::Eq, 1, a, b)
    }
    pub fn cmp_k(&mut self, k: K, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.bool(matches!(k, K::Ule | K::Sle));
        }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = match k {
                K::Ult => x < y,
                K::Ule => x <= y,
                K::Slt => sext(x, w) < sext(y, w),
                _ => sext(x, w) <= sext(y, w),
            };
            return self.bool(r);
        }
        let (na, nb) = (self.n(a), self.n(b));
        match k {
            K::Ult => {
                if cb == Some(0) || ca == Some(mask(w)) {
                    return self.bool(false);
                }
                if cb == Some(1) {
                    let z = self.konst(0, w);
                    return self.eq(a, z);
                }
                if ca == Some(0) {
                    let z = self.konst(0, w);
                    let e = self.eq(b, z);
                    return self.not1(e);
                }
            }
            K::Ule => {
                if ca == Some(0) || cb == Some(mask(w)) {
                    return self.bool(true);
                }
                if cb == Some(0) {
                    return self.eq(a, b);
                }
            }
            _ => {}
        }
        // zext on either side
        let za = if na.k == K::ZExt { Some(self.w(na.a)) } else { None };
        let zb = if nb.k == K::ZExt { Some(self.w(nb.a)) } else { None };
        if let (Some(x), Some(y)) = (za, zb) {
            let m = x.max(y);
            let p = self.zext(na.a, m);
            let q = self.zext(nb.a, m);
            let uk = match k {
                K::Slt => K::Ult,
                K::Sle => K::Ule,
                k => k,
            };
            return self.cmp_k(uk, p, q);
        }
        if let (Some(x), Some(c)) = (za, cb) {
            // zext(p) < c
            let neg = matches!(k, K::Slt | K::Sle) && (c >> (w - 1)) & 1 == 1;
            if neg {
                return self.bool(false);
            }
            if c > mask(x) {
                return self.bool(true);
            }
            let q = self.konst(c, x);
            let uk = if matches!(k, K::Slt | K::Ult) { K::Ult } else { K::Ule };
            return self.cmp_k(uk, na.a, q);
        }
        if let (Some(c), Some(x)) = (ca, zb) {
            let neg = matches!(k, K::Slt | K::Sle) && (c >> (w - 1)) & 1 == 1;
            if neg {
                return self.bool(true);
            }
            if c > mask(x) {
                return self.bool(false);
            }
            let q = self.konst(c, x);
            let uk = if matches!(k, K::Slt | K::Ult) { K::Ult } else { K::Ule };
            return self.cmp_k(uk, q, nb.a);
        }
        self.raw(k, 1, a, b)
    }
    pub fn ite(&mut self, c: Id, t: Id, e: Id) -> Id {
        if t == e {
            return t;
        }
        match self.as_const(c) {
            Some(0) => return e,
            Some(_) => return t,
            None => {}
        }
        let w = self.w(t);
        debug_assert_eq!(w, self.w(e));
        if w == 1 {
            match (self.as_const(t), self.as_const(e)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.or1(c, e),
                (Some(0), None) => {
                    let n = self.not1(c);
                    return self.and1(n, e);
                }
                (None, Some(0)) => return self.and1(c, t),
                (None, Some(1)) => {
                    let n = self.not1(c);
                    return self.or1(n, t);
                }
                _ => {}
            }
        }
        let nc = self.n(c);
        if nc.k == K::Xor && self.as_const(nc.b) == Some(1) {
            return self.ite(nc.a, e, t);
        }
        // ite over zero-extended bool: keep generic
        self.mk(Node { k: K::Ite, w: w as u16, a: c, b: t, c: e })
    }
    pub fn extract(&mut self, hi: u32, lo: u32, a: Id) -> Id {
        let w = self.w(a);
        let nw = hi - lo + 1;
        if nw == w {
            return a;
        }
        if let Some(v) = self.as_const(a) {
            return self.konst(v >> lo, nw);
        }
        let n = self.n(a);
        match n.k {
            K::Extract => return self.extract(hi + n.b, lo + n.b, n.a),
            K::Concat => {
                let lw = self.w(n.b);
                if hi < lw {
                    return self.extract(hi, lo, n.b);
                }
                if lo >= lw {
                    return self.extract(hi - lw, lo - lw, n.a);
                }
                let h = self.extract(hi - lw, 0, n.a);
                let l = self.extract(lw - 1, lo, n.b);
                return self.concat(h, l);
            }
            K::ZExt | K::SExt => {
                let iw = self.w(n.a);
                if hi < iw {
                    return self.extract(hi, lo, n.a);
                }
                if n.k == K::ZExt {
                    if lo >= iw {
                        return self.konst(0, nw);
                    }
                    let e = self.extract(iw - 1, lo, n.a);
                    return self.zext(e, nw);
                }
                if lo == 0 {
                    return self.sext(n.a, nw);
                }
            }
            K::Ite => {
                let (t, e) = (self.as_const(n.b), self.as_const(n.c));
                if t.is_some() || e.is_some() || true {
                    let t = self.extract(hi, lo, n.b);
                    let e = self.extract(hi, lo, n.c);
                    return self.ite(n.a, t, e);
                }
            }
            K::And | K::Or | K::Xor => {
                let x = self.extract(hi, lo, n.a);
                let y = self.extract(hi, lo, n.b);
                let op = match n.k {
                    K::And => Bin::And,
                    K::Or => Bin::Or,
                    _ => Bin::Xor,
                };
                return self.bin(op, x, y);
            }
            K::Add | K::Sub | K::Mul if lo == 0 => {
                let x = self.extract(hi, 0, n.a);
                let y = self.extract(hi, 0, n.b);
                let op = match n.k {
                    K::Add => Bin::Add,
                    K::Sub => Bin::Sub,
                    _ => Bin::Mul,
                };
                return self.bin(op, x, y);
            }
            K::Lut => {
                let t = self.luts[n.b as usize].clone();
                let mut u = [0u64; 256];
                for i in 0..256 {
                    u[i] = (t[i] >> lo) & lo64(mask(nw));
                }
                return self.lut(n.a, u, nw);
            }
            _ => {}
        }
        self.raw(K::Extract, nw, a, lo)
    }
    pub fn concat(&mut self, h: Id, l: Id) -> Id {
        let (hw, lw) = (self.w(h), self.w(l));
        if hw == 0 {
            return l;
        }
        if lw == 0 {
            return h;
        }
        let w = hw + lw;
        let (ch, cl) = (self.as_const(h), self.as_const(l));
        if let (Some(x), Some(y)) = (ch, cl) {
            return self.konst((x << lw) | y, w);
        }
        if ch == Some(0) {
            return self.zext(l, w);
        }
        let (nh, nl) = (self.n(h), self.n(l));
        if nh.k == K::Extract && nl.k == K::Extract && nh.a == nl.a && nh.b == nl.b + lw {
            return self.extract(nh.b + hw - 1, nl.b, nl.a);
        }
        // extract(hi..) ++ whole low part
        if nh.k == K::Extract && nh.b == lw && nh.a == l {
            return self.extract(nh.b + hw - 1, 0, l);
        }
        // (x ++ y) where both ite on same cond with consts, merge
        if nh.k == K::Ite && nl.k == K::Ite && nh.a == nl.a {
            let t = self.concat(nh.b, nl.b);
            let e = self.concat(nh.c, nl.c);
            return self.ite(nh.a, t, e);
        }
        if nl.k == K::Concat {
            // right-assoc: h ++ (x ++ y): try merging h,x
            let x = self.concat_try(h, nl.a);
            if let Some(x) = x {
                return self.concat(x, nl.b);
            }
        }
        if nh.k == K::Concat {
            if let Some(x) = self.concat_try(nh.b, l) {
                return self.concat(nh.a, x);
            }
        }
        if nh.k == K::ZExt {
            // (0 ++ p) ++ l = zext(p ++ l)
            let p = self.concat(nh.a, l);
            return self.zext(p, w);
        }
        self.raw(K::Concat, w, h, l)
    }
    fn concat_try(&mut self, h: Id, l: Id) -> Option<Id> {
        let (nh, nl) = (self.n(h), self.n(l));
        let (hw, lw) = (self.w(h), self.w(l));
        if nh.k == K::Const && nl.k == K::Const {
            return Some(self.concat(h, l));
        }
        if nh.k == K::Extract && nl.k == K::Extract && nh.a == nl.a && nh.b == nl.b + lw {
            return Some(self.extract(nh.b + hw - 1, nl.b, nl.a));
        }
        None
    }
    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        let iw = self.w(a);
        if iw == w {
            return a;
        }
        if let Some(v) = self.as_const(a) {
            return self.konst(v, w);
        }
        let n = self.n(a);
        if n.k == K::ZExt {
            return self.zext(n.a, w);
        }
        if n.k == K::Lut && w <= 64 {
            let t = self.luts[n.b as usize].clone();
            return self.lut(n.a, *t, w);
        }
        if n.k == K::Ite && self.as_const(n.b).is_some() && self.as_const(n.c).is_some() {
            let t = self.zext(n.b, w);
            let e = self.zext(n.c, w);
            return self.ite(n.a, t, e);
        }
        self.raw(K::ZExt, w, a, 0)
    }
    pub fn sext(&mut self, a: Id, w: u32) -> Id {
        let iw = self.w(a);
        if iw == w {
            return a;
        }
        if let Some(v) = self.as_const(a) {
            return self.konst(sext(v, iw) as u128, w);
        }
        let n = self.n(a);
        if n.k == K::SExt {
            return self.sext(n.a, w);
        }
        if n.k == K::ZExt {
            return self.zext(n.a, w);
        }
        self.raw(K::SExt, w, a, 0)
    }
    pub fn lut(&mut self, a: Id, t: [u64; 256], w: u32) -> Id {
        debug_assert!(self.w(a) <= 8);
        let n = 1usize << self.w(a);
        if t[..n].iter().all(|x| *x == t[0]) {
            return self.konst(t[0] as u128, w);
        }
        let t = Rc::new(t);
        let li = match self.lmap.get(&t) {
            Some(&i) => i,
            None => {
                let i = self.luts.len() as u32;
                self.luts.push(t.clone());
                self.lmap.insert(t, i);
                i
            }
        };
        self.raw(K::Lut, w, a, li)
    }
    pub fn unary_f(&mut self, k: K, a: Id, w: u32) -> Id {
        // conversions
        let n = self.n(a);
        if k == K::FTrunc && n.k == K::FExt {
            return n.a;
        }
        self.raw(k, w, a, 0)
    }

    /// Evaluate under an assignment of the variables.
    pub fn eval(&self, id: Id, model: &dyn Fn(u32) -> u64, memo: &mut HashMap<Id, u128>) -> u128 {
        let n = self.nodes[id as usize];
        match n.k {
            K::Const => return self.consts[n.a as usize],
            K::Var => return model(n.a) as u128 & mask(n.w as u32),
            _ => {}
        }
        if let Some(v) = memo.get(&id) {
            return *v;
        }
        let w = n.w as u32;
        let v = match n.k {
            K::Const | K::Var => unreachable!(),
            K::Ite => {
                if self.eval(n.a, model, memo) != 0 {
                    self.eval(n.b, model, memo)
                } else {
                    self.eval(n.c, model, memo)
                }
            }
            K::Extract => (self.eval(n.a, model, memo) >> n.b) & mask(w),
            K::Concat => {
                let lw = self.w(n.b);
                (self.eval(n.a, model, memo) << lw) | self.eval(n.b, model, memo)
            }
            K::ZExt => self.eval(n.a, model, memo),
            K::SExt => (sext(self.eval(n.a, model, memo), self.w(n.a)) as u128) & mask(w),
            K::Lut => {
                let i = self.eval(n.a, model, memo) as usize;
                self.luts[n.b as usize][i & 255] as u128
            }
            K::U2F | K::S2F | K::F2U | K::F2S | K::FExt | K::FTrunc | K::FFloor | K::FCeil | K::FToZero | K::FAway | K::FEven | K::FSqrt => {
                let a = self.eval(n.a, model, memo);
                fconv(n.k, self.w(n.a), w, a)
            }
            _ => {
                let a = self.eval(n.a, model, memo);
                let b = self.eval(n.b, model, memo);
                let iw = self.w(n.a);
                match n.k {
                    K::Eq => (a == b) as u128,
                    K::Ult => (a < b) as u128,
                    K::Ule => (a <= b) as u128,
                    K::Slt => (sext(a, iw) < sext(b, iw)) as u128,
                    K::Sle => (sext(a, iw) <= sext(b, iw)) as u128,
                    k => fold(kbin(k), w, a, b).unwrap_or(0),
                }
            }
        };
        memo.insert(id, v);
        v
    }

    /// Value of one node given the values of its children.
    pub fn eval1(&self, id: Id, k: [u128; 3]) -> u128 {
        let n = self.nodes[id as usize];
        let w = n.w as u32;
        match n.k {
            K::Const | K::Var => unreachable!(),
            K::Ite => if k[0] != 0 { k[1] } else { k[2] },
            K::Extract => (k[0] >> n.b) & mask(w),
            K::Concat => (k[0] << self.w(n.b)) | k[1],
            K::ZExt => k[0],
            K::SExt => (sext(k[0], self.w(n.a)) as u128) & mask(w),
            K::Lut => self.luts[n.b as usize][k[0] as usize & 255] as u128,
            K::U2F | K::S2F | K::F2U | K::F2S | K::FExt | K::FTrunc | K::FFloor | K::FCeil | K::FToZero | K::FAway | K::FEven | K::FSqrt => fconv(n.k, self.w(n.a), w, k[0]),
            _ => {
                let iw = self.w(n.a);
                match n.k {
                    K::Eq => (k[0] == k[1]) as u128,
                    K::Ult => (k[0] < k[1]) as u128,
                    K::Ule => (k[0] <= k[1]) as u128,
                    K::Slt => (sext(k[0], iw) < sext(k[1], iw)) as u128,
                    K::Sle => (sext(k[0], iw) <= sext(k[1], iw)) as u128,
                    q => fold(kbin(q), w, k[0], k[1]).unwrap_or(0),
                }
            }
        }
    }

    /// Truth set of a width-1 expression over its single <=8-bit variable.
    pub fn set256(&mut self, id: Id) -> Set256 {
        if let Some(s) = self.sets.get(&id) {
            return *s;
        }
        let mut s = [0u64; 4];
        let var = match self.sup[id as usize] {
            Sup::One(v) => v,
            _ => panic!("set256"),
        };
        let n = 1usize << self.var_w[var as usize];
        // vectorised evaluation of the small DAG
        let mut memo: HashMap<Id, Vec<u128>> = HashMap::new();
        self.eval_all(id, n, &mut memo);
        let r = &memo[&id];
        for i in 0..n {
            if r[i] != 0 {
                s[i / 64] |= 1 << (i % 64);
            }
        }
        self.sets.insert(id, s);
        s
    }
    pub fn eval_all(&self, id: Id, cnt: usize, memo: &mut HashMap<Id, Vec<u128>>) {
        if memo.contains_key(&id) {
            return;
        }
        let n = self.nodes[id as usize];
        let w = n.w as u32;
        let r: Vec<u128> = match n.k {
            K::Const => vec![self.consts[n.a as usize]; cnt],
            K::Var => (0..cnt as u128).collect(),
            K::Ite => {
                self.eval_all(n.a, cnt, memo);
                self.eval_all(n.b, cnt, memo);
                self.eval_all(n.c, cnt, memo);
                let (a, b, c) = (&memo[&n.a], &memo[&n.b], &memo[&n.c]);
                (0..cnt).map(|i| if a[i] != 0 { b[i] } else { c[i] }).collect()
            }
            K::Extract | K::ZExt | K::SExt | K::Lut | K::U2F | K::S2F | K::F2U | K::F2S | K::FExt | K::FTrunc | K::FFloor | K::FCeil | K::FToZero | K::FAway | K::FEven | K::FSqrt => {
                self.eval_all(n.a, cnt, memo);
                let a = &memo[&n.a];
                let aw = self.w(n.a);
                (0..cnt)
                    .map(|i| match n.k {
                        K::Extract => (a[i] >> n.b) & mask(w),
                        K::ZExt => a[i],
                        K::SExt => (sext(a[i], aw) as u128) & mask(w),
                        K::Lut => self.luts[n.b as usize][a[i] as usize & 255] as u128,
                        k => fconv(k, aw, w, a[i]),
                    })
                    .collect()
            }
            _ => {
                self.eval_all(n.a, cnt, memo);
                self.eval_all(n.b, cnt, memo);
                let (a, b) = (&memo[&n.a], &memo[&n.b]);
                let iw = self.w(n.a);
                let lw = self.w(n.b);
                (0..cnt)
                    .map(|i| match n.k {
                        K::Concat => (a[i] << lw) | b[i],
                        K::Eq => (a[i] == b[i]) as u128,
                        K::Ult => (a[i] < b[i]) as u128,
                        K::Ule => (a[i] <= b[i]) as u128,
                        K::Slt => (sext(a[i], iw) < sext(b[i], iw)) as u128,
                        K::Sle => (sext(a[i], iw) <= sext(b[i], iw)) as u128,
                        k => fold(kbin(k), w, a[i], b[i]).unwrap_or(0),
                    })
                    .collect()
            }
        };
        memo.insert(id, r);
    }

    pub fn vars(&mut self, id: Id) -> Rc<Vec<u32>> {
        if let Some(v) = self.varsets.get(&id) {
            return v.clone();
        }
        let mut seen = std::collections::HashSet::new();
        let mut out = vec![];
        let mut st = vec![id];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = self.nodes[x as usize];
            match n.k {
                K::Const => {}
                K::Var => out.push(n.a),
                K::Ite => st.extend([n.a, n.b, n.c]),
                K::Extract | K::ZExt | K::SExt | K::Lut | K::U2F | K::S2F | K::F2U | K::F2S | K::FExt
                | K::FTrunc | K::FFloor | K::FCeil | K::FToZero | K::FAway | K::FEven | K::FSqrt => st.push(n.a),
                _ => st.extend([n.a, n.b]),
            }
        }
        out.sort();
        let r = Rc::new(out);
        self.varsets.insert(id, r.clone());
        r
    }
    pub fn has_float(&self, id: Id) -> bool {
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![id];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = self.nodes[x as usize];
            match n.k {
                K::Const | K::Var => {}
                K::Ite => st.extend([n.a, n.b, n.c]),
                K::Extract | K::ZExt | K::SExt | K::Lut => st.push(n.a),
                K::U2F | K::S2F | K::F2U | K::F2S | K::FExt | K::FTrunc | K::FFloor | K::FCeil | K::FToZero | K::FAway | K::FEven | K::FSqrt | K::FAdd | K::FSub | K::FMul | K::FDiv => {
                    return true
                }
                _ => st.extend([n.a, n.b]),
            }
        }
        false
    }
}

fn kbin(k: K) -> Bin {
    match k {
        K::Add => Bin::Add,
        K::Sub => Bin::Sub,
        K::Mul => Bin::Mul,
        K::UDiv => Bin::UDiv,
        K::SDiv => Bin::SDiv,
        K::URem => Bin::URem,
        K::SRem => Bin::SRem,
        K::Shl => Bin::Shl,
        K::LShr => Bin::LShr,
        K::AShr => Bin::AShr,
        K::And => Bin::And,
        K::Or => Bin::Or,
        K::Xor => Bin::Xor,
        K::FAdd => Bin::FAdd,
        K::FSub => Bin::FSub,
        K::FMul => Bin::FMul,
        K::FDiv => Bin::FDiv,
        _ => unreachable!("{:?}", k),
    }
}

pub fn fconv(k: K, fw: u32, tw: u32, a: u128) -> u128 {
    let as_f = |a: u128| -> f64 {
        if fw == 32 {
            f32::from_bits(a as u32) as f64
        } else {
            f64::from_bits(a as u64)
        }
    };
    match k {
        K::U2F => {
            if tw == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        K::S2F => {
            let s = sext(a, fw);
            if tw == 32 {
                (s as f32).to_bits() as u128
            } else {
                (s as f64).to_bits() as u128
            }
        }
        K::F2U => (as_f(a) as u128) & mask(tw),
        K::F2S => ((as_f(a) as i128) as u128) & mask(tw),
        K::FExt => as_f(a).to_bits() as u128,
        K::FTrunc => (f64::from_bits(a as u64) as f32).to_bits() as u128,
        K::FFloor | K::FCeil | K::FToZero | K::FAway | K::FEven | K::FSqrt => {
            let f = as_f(a);
            let r = match k {
                K::FFloor => f.floor(),
                K::FCeil => f.ceil(),
                K::FToZero => f.trunc(),
                K::FAway => f.round(),
                K::FEven => f.round_ties_even(),
                // a root of a single precision number rounds the same through double precision
                _ => f.sqrt(),
            };
            if tw == 32 {
                (r as f32).to_bits() as u128
            } else {
                r.to_bits() as u128
            }
        }
        _ => 0,
    }
}

pub fn fold(op: Bin, w: u32, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(
        m & match op {
            Bin::Add => a.wrapping_add(b),
            Bin::Sub => a.wrapping_sub(b),
            Bin::Mul => a.wrapping_mul(b),
            Bin::UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            Bin::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Bin::SDiv => {
                let (x, y) = (sext(a, w), sext(b, w));
                if y == 0 {
                    if x < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    x.wrapping_div(y) as u128
                }
            }
            Bin::SRem => {
                let (x, y) = (sext(a, w), sext(b, w));
                if y == 0 {
                    a
                } else {
                    x.wrapping_rem(y) as u128
                }
            }
            Bin::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            Bin::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Bin::AShr => {
                let s = (b.min(127)) as u32;
                (sext(a, w) >> s) as u128
            }
            Bin::And => a & b,
            Bin::Or => a | b,
            Bin::Xor => a ^ b,
            Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv | Bin::FRem => {
                if w == 32 {
                    let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                    let r = match op {
                        Bin::FAdd => x + y,
                        Bin::FSub => x - y,
                        Bin::FMul => x * y,
                        Bin::FDiv => x / y,
                        _ => x % y,
                    };
                    r.to_bits() as u128
                } else {
                    let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                    let r = match op {
                        Bin::FAdd => x + y,
                        Bin::FSub => x - y,
                        Bin::FMul => x * y,
                        Bin::FDiv => x / y,
                        _ => x % y,
                    };
                    r.to_bits() as u128
                }
            }
        },
    )
}

impl Arena {
    /// Text of an expression, for debugging.
    pub fn show(&self, id: Id, depth: u32) -> String {
        let n = self.nodes[id as usize];
        if let Some(c) = self.as_const(id) {
            return format!("{}", c);
        }
        if n.k == K::Var {
            return format!("v{}", n.a);
        }
        if depth == 0 {
            return "..".into();
        }
        let d = depth - 1;
        match n.k {
            K::Lut => format!("Lut{}:{}({})", n.b, n.w, self.show(n.a, d)),
            K::Extract => format!("[{}+{}]({})", n.b, n.w, self.show(n.a, d)),
            K::Ite => format!("({} ? {} : {})", self.show(n.a, d), self.show(n.b, d), self.show(n.c, d)),
            K::ZExt | K::SExt | K::U2F | K::S2F | K::F2U | K::F2S | K::FExt | K::FTrunc | K::FFloor | K::FCeil | K::FToZero | K::FAway | K::FEven | K::FSqrt => {
                format!("{:?}{}({})", n.k, n.w, self.show(n.a, d))
            }
            _ => format!("({:?} {} {})", n.k, self.show(n.a, d), self.show(n.b, d)),
        }
    }
}
