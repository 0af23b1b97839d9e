//! Parser for the subset of textual LLVM IR that rustc emits, into a pre-decoded form.

use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, Arc<Ty>),
    Struct(Arc<Vec<Ty>>, bool),
    Vec(u64, Arc<Ty>),
    Other,
}

pub fn round_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16).max(1)
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(n, t) => (n * t.size()).next_power_of_two().max(1),
        }
    }
    /// Allocation size (stride).
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => round_up(((*w as u64) + 7) / 8, self.align()),
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut off = 0;
                for t in f.iter() {
                    if !*packed {
                        off = round_up(off, t.align());
                    }
                    off += t.size();
                }
                if *packed {
                    off
                } else {
                    round_up(off, self.align())
                }
            }
            Ty::Vec(n, t) => n * t.size(),
        }
    }
    /// Bit width of a scalar.
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => 0,
        }
    }
    pub fn store_bytes(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut off = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        off = round_up(off, t.align());
                    }
                    if k as u64 == i {
                        return (off, t.clone());
                    }
                    off += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            _ => panic!("field of scalar"),
        }
    }
    pub fn num_fields(&self) -> u64 {
        match self {
            Ty::Struct(f, _) => f.len() as u64,
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n,
            _ => 0,
        }
    }
}

/// A constant or runtime value.  `S` is a handle to a symbolic expression.
#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(u32),
    A(Arc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Op {
    K(Val),
    R(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bitcast,
    PtrToInt,
    IntToPtr,
    UIToFP,
    SIToFP,
    FPToUI,
    FPToSI,
    FPTrunc,
    FPExt,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ext(String),
    Ind(Op),
    Nop,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: Bin, ty: Ty, a: Op, b: Op },
    Icmp { p: Pred, ty: Ty, a: Op, b: Op },
    Fcmp { p: String, ty: Ty, a: Op, b: Op },
    FNeg { ty: Ty, a: Op },
    Cast { c: Cast, from: Ty, to: Ty, a: Op },
    Select { cty: Ty, ty: Ty, c: Op, a: Op, b: Op },
    Load { ty: Ty, p: Op },
    Store { ty: Ty, v: Op, p: Op },
    Gep { base: Op, off: u64, terms: Vec<(Op, u32, u64)> },
    Alloca { size: u64, count: Option<Op> },
    Call { callee: Callee, args: Vec<(Ty, Op)>, ret: Ty },
    Extract { a: Op, idx: Vec<u32> },
    Insert { ty: Ty, a: Op, v: Op, idx: Vec<u32> },
    ExtElem { ty: Ty, a: Op, i: Op },
    InsElem { ty: Ty, a: Op, v: Op, i: Op },
    Shuffle { ty: Ty, a: Op, b: Op, mask: Vec<i64> },
    Copy { a: Op },
    Rmw { op: String, ty: Ty, p: Op, v: Op },
    CmpXchg { ty: Ty, p: Op, c: Op, n: Op },
    Nop,
    Br(u32),
    CondBr { c: Op, t: u32, f: u32 },
    Switch { ty: Ty, v: Op, d: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Op>),
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Ins {
    pub i: I,
    pub dst: u32, // u32::MAX: none
    /// for invoke: block to continue at
    pub normal: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub ins: Vec<Ins>,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<(Ty, u32)>,
    pub ret: Ty,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub src: (usize, usize),
    pub decoded: bool,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub ty: Ty,
    pub constant: bool,
    pub init: Val,
    pub external: bool,
}

pub const OBJ_SHIFT: u32 = 24;
pub const FN_BASE: u64 = 0x7f00_0000_0000_0000;
pub const NONE: u32 = u32::MAX;

pub struct Module {
    pub funcs: Vec<Func>,
    pub func_idx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub global_addr: HashMap<String, u64>,
    pub text_len: usize,
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
    m: &'a Ctx,
    regs: Option<&'a mut HashMap<String, u32>>,
}

pub struct Ctx {
    pub global_addr: HashMap<String, u64>,
    pub func_idx: HashMap<String, u32>,
    pub named: HashMap<String, Ty>,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

pub type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() {
            if matches!(self.s[self.i], b' ' | b'\t' | b'\n') {
                self.i += 1;
            } else if self.s[self.i..].starts_with(b"/*") {
                // a comment inside an instruction
                match self.s[self.i..].windows(2).position(|w| w == b"*/") {
                    Some(k) => self.i += k + 2,
                    None => break,
                }
            } else {
                break;
            }
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {:?}", c as char, self.rest(60)))
        }
    }
    fn rest(&self, n: usize) -> String {
        let e = (self.i + n).min(self.s.len());
        String::from_utf8_lossy(&self.s[self.i..e]).into_owned()
    }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && is_word(self.s[j]) {
            j += 1;
        }
        std::str::from_utf8(&self.s[self.i..j]).unwrap()
    }
    fn word(&mut self) -> &'a str {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    fn skip_balanced(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    /// A name after '%' or '@'.
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            self.i += 1;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            self.i += 1;
            String::from_utf8_lossy(&self.s[st..self.i - 1]).into_owned()
        } else {
            self.word_raw().to_string()
        }
    }
    fn word_raw(&mut self) -> &'a str {
        let st = self.i;
        while self.i < self.s.len() && is_word(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.peek() {
            b'{' => {
                self.i += 1;
                let f = self.ty_list(b'}')?;
                Ty::Struct(Arc::new(f), false)
            }
            b'[' => {
                self.i += 1;
                let n: u64 = self.word().parse().map_err(|_| "arr len".to_string())?;
                self.word(); // x
                let t = self.ty()?;
                self.expect(b']')?;
                Ty::Arr(n, Arc::new(t))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let f = self.ty_list(b'}')?;
                    self.expect(b'>')?;
                    Ty::Struct(Arc::new(f), true)
                } else {
                    let n: u64 = self.word().parse().map_err(|_| "vec len".to_string())?;
                    self.word();
                    let t = self.ty()?;
                    self.expect(b'>')?;
                    Ty::Vec(n, Arc::new(t))
                }
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                self.m.named.get(&n).cloned().unwrap_or(Ty::Other)
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.eat_word("addrspace") {
                            self.ws();
                            self.skip_balanced();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" | "label" | "token" | "x86_fp80" | "half" | "fp128" => Ty::Other,
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => {
                        Ty::Int(w[1..].parse().unwrap())
                    }
                    _ => return Err(format!("type? {:?} {:?}", w, self.rest(40))),
                }
            }
        };
        Ok(t)
    }
    fn ty_list(&mut self, end: u8) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat(b',') {
                continue;
            }
            self.expect(end)?;
            return Ok(v);
        }
    }
    fn at_type(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' => true,
            _ => {
                let w = self.peek_word();
                matches!(w, "void" | "ptr" | "float" | "double" | "metadata")
                    || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                b'%' | b'@' | b'{' | b'[' | b'<' | b',' | b')' | b'"' | 0 => return,
                c if c.is_ascii_digit() || c == b'-' => return,
                b'#' => {
                    self.i += 1;
                    self.word();
                    continue;
                }
                _ => {}
            }
            let w = self.peek_word();
            if matches!(
                w,
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "inttoptr" | "ptrtoint"
                    | "getelementptr" | "bitcast" | "c" | "add" | "sub" | "xor" | "trunc" | "splat"
            ) {
                return;
            }
            if w.is_empty() || w.starts_with("f0x") {
                return;
            }
            self.i += w.len();
            if w == "align" {
                self.word();
            } else if self.s.get(self.i) == Some(&b'(') {
                self.skip_balanced();
            }
        }
    }
    fn parse_float(w: &str, ty: &Ty) -> R<Val> {
        if let Some(h) = w.strip_prefix("0x") {
            let b = u64::from_str_radix(h, 16).map_err(|_| "float hex".to_string())?;
            let d = f64::from_bits(b);
            return Ok(match ty {
                Ty::F32 => Val::C((d as f32).to_bits() as u128),
                _ => Val::C(b as u128),
            });
        }
        if let Some(h) = w.strip_prefix("f0x") {
            let b = u64::from_str_radix(h, 16).map_err(|_| "float hex".to_string())?;
            return Ok(Val::C(b as u128));
        }
        let d: f64 = match w {
            "+qnan" | "-qnan" => {
                let neg = w.starts_with('-') as u128;
                return Ok(match ty {
                    Ty::F32 => Val::C(0x7fc0_0000 | neg << 31),
                    _ => Val::C(0x7ff8_0000_0000_0000 | neg << 63),
                });
            }
            "+inf" => f64::INFINITY,
            "-inf" => f64::NEG_INFINITY,
            _ => w.parse().map_err(|_| format!("float {}", w))?,
        };
        Ok(match ty {
            Ty::F32 => Val::C((d as f32).to_bits() as u128),
            _ => Val::C(d.to_bits() as u128),
        })
    }
    fn zero(ty: &Ty) -> Val {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                Val::A(Arc::new((0..ty.num_fields()).map(|i| Self::zero(&ty.field(i).1)).collect()))
            }
            _ => Val::C(0),
        }
    }
    fn op(&mut self, ty: &Ty) -> R<Op> {
        match self.peek() {
            b'%' => {
                self.i += 1;
                let n = self.name();
                let regs = self.regs.as_mut().ok_or("register in constant")?;
                let k = regs.len() as u32;
                let r = *regs.entry(n).or_insert(k);
                return Ok(Op::R(r));
            }
            _ => Ok(Op::K(self.konst(ty)?)),
        }
    }
    fn konst(&mut self, ty: &Ty) -> R<Val> {
        match self.peek() {
            b'@' => {
                self.i += 1;
                let n = self.name();
                if let Some(a) = self.m.global_addr.get(&n) {
                    return Ok(Val::C(*a as u128));
                }
                if let Some(f) = self.m.func_idx.get(&n) {
                    return Ok(Val::C((FN_BASE + (*f as u64) * 16) as u128));
                }
                return Err(format!("unknown global {}", n));
            }
            b'{' => {
                self.i += 1;
                let v = self.agg(b'}')?;
                return Ok(Val::A(Arc::new(v)));
            }
            b'[' => {
                self.i += 1;
                let v = self.agg(b']')?;
                return Ok(Val::A(Arc::new(v)));
            }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') {
                    let v = self.agg(b'}')?;
                    self.expect(b'>')?;
                    return Ok(Val::A(Arc::new(v)));
                }
                let v = self.agg(b'>')?;
                return Ok(Val::A(Arc::new(v)));
            }
            _ => {}
        }
        let w = self.peek_word();
        if w == "c" && self.s.get(self.i + 1) == Some(&b'"') {
            self.i += 2;
            let mut v = vec![];
            while self.s[self.i] != b'"' {
                if self.s[self.i] == b'\\' {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    if let Ok(b) = u8::from_str_radix(h, 16) {
                        v.push(Val::C(b as u128));
                        self.i += 3;
                    } else {
                        v.push(Val::C(b'\\' as u128));
                        self.i += 2;
                    }
                } else {
                    v.push(Val::C(self.s[self.i] as u128));
                    self.i += 1;
                }
            }
            self.i += 1;
            return Ok(Val::A(Arc::new(v)));
        }
        self.i += w.len();
        match w {
            "true" => Ok(Val::C(1)),
            "false" | "null" | "none" => Ok(Val::C(0)),
            "undef" | "poison" | "zeroinitializer" => Ok(Self::zero(ty)),
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                self.expect(b'(')?;
                let t = self.ty()?;
                let v = self.konst(&t)?;
                self.word(); // to
                let to = self.ty()?;
                self.expect(b')')?;
                match v {
                    Val::C(x) => Ok(Val::C(x & mask(to.bits().max(1)))),
                    v => Ok(v),
                }
            }
            "splat" => {
                self.expect(b'(')?;
                let t = self.ty()?;
                let v = self.konst(&t)?;
                self.expect(b')')?;
                Ok(Val::A(Arc::new((0..ty.num_fields()).map(|_| v.clone()).collect())))
            }
            "sub" | "add" | "xor" => {
                while self.peek() != b'(' {
                    self.word();
                }
                self.expect(b'(')?;
                let t = self.ty()?;
                let a = self.konst(&t)?;
                self.expect(b',')?;
                let t2 = self.ty()?;
                let b = self.konst(&t2)?;
                self.expect(b')')?;
                match (a, b) {
                    (Val::C(a), Val::C(b)) => Ok(Val::C(
                        match w {
                            "sub" => a.wrapping_sub(b),
                            "add" => a.wrapping_add(b),
                            _ => a ^ b,
                        } & mask(t.bits()),
                    )),
                    _ => Err("constexpr".into()),
                }
            }
            "getelementptr" => {
                while self.peek() != b'(' {
                    let w = self.word();
                    if w.is_empty() {
                        return Err("gep constexpr".into());
                    }
                    if w == "inrange" {
                        self.ws();
                        self.skip_balanced();
                    }
                }
                self.expect(b'(')?;
                let ety = self.ty()?;
                self.expect(b',')?;
                let (base, off, terms) = self.gep_rest(&ety)?;
                self.expect(b')')?;
                match base {
                    Op::K(Val::C(b)) if terms.is_empty() => Ok(Val::C((b as u64).wrapping_add(off) as u128)),
                    _ => Err("gep constexpr".into()),
                }
            }
            _ => {
                if matches!(ty, Ty::F32 | Ty::F64) {
                    // floats may contain '+' in exponents, e.g. 1.000000e+09
                    let mut w = w.to_string();
                    if self.s.get(self.i) == Some(&b'+') {
                        self.i += 1;
                        let e = self.word_raw();
                        w = format!("{}+{}", w, e);
                    }
                    return Self::parse_float(&w, ty);
                }
                let width = ty.bits();
                if let Ok(v) = w.parse::<i128>() {
                    return Ok(Val::C((v as u128) & mask(width)));
                }
                if let Ok(v) = w.parse::<u128>() {
                    return Ok(Val::C(v & mask(width)));
                }
                Err(format!("const? {:?} {:?}", w, self.rest(40)))
            }
        }
    }
    fn agg(&mut self, end: u8) -> R<Vec<Val>> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            v.push(self.konst(&t)?);
            if self.eat(b',') {
                continue;
            }
            self.expect(end)?;
            return Ok(v);
        }
    }
    fn typed_op(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        self.skip_attrs();
        let o = self.op(&t)?;
        Ok((t, o))
    }
    fn gep_rest(&mut self, ety: &Ty) -> R<(Op, u64, Vec<(Op, u32, u64)>)> {
        let (_, base) = self.typed_op()?;
        let mut off = 0u64;
        let mut terms = vec![];
        let mut cur = ety.clone();
        let mut first = true;
        while self.peek() == b',' {
            let save = self.i;
            self.i += 1;
            if self.peek() == b'!' {
                self.i = save;
                break;
            }
            let (t, o) = self.typed_op()?;
            if first {
                first = false;
                let sz = cur.size();
                match o {
                    Op::K(Val::C(c)) => off = off.wrapping_add((sext(c, t.bits()) as i64 as u64).wrapping_mul(sz)),
                    o => terms.push((o, t.bits(), sz)),
                }
            } else {
                match &cur {
                    Ty::Struct(..) => {
                        if let Op::K(Val::C(c)) = o {
                            let (fo, ft) = cur.field(c as u64);
                            off = off.wrapping_add(fo);
                            cur = ft;
                        } else {
                            return Err("gep struct idx".into());
                        }
                    }
                    Ty::Arr(_, t2) | Ty::Vec(_, t2) => {
                        let t2 = (**t2).clone();
                        let sz = t2.size();
                        match o {
                            Op::K(Val::C(c)) => {
                                off = off.wrapping_add((sext(c, t.bits()) as i64 as u64).wrapping_mul(sz))
                            }
                            o => terms.push((o, t.bits(), sz)),
                        }
                        cur = t2;
                    }
                    _ => return Err("gep type".into()),
                }
            }
        }
        Ok((base, off, terms))
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w == 0 || w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

fn global_name(line: &str) -> Option<(String, &str)> {
    let b = line.as_bytes();
    if b.first() != Some(&b'@') {
        return None;
    }
    if b[1] == b'"' {
        let e = line[2..].find('"')? + 2;
        let rest = line[e + 1..].strip_prefix(" = ")?;
        Some((line[2..e].to_string(), rest))
    } else {
        let e = line.find(" = ")?;
        Some((line[1..e].to_string(), &line[e + 3..]))
    }
}

fn fn_name(line: &str) -> Option<String> {
    let at = line.find('@')?;
    let b = line.as_bytes();
    if b[at + 1] == b'"' {
        let e = line[at + 2..].find('"')? + at + 2;
        Some(line[at + 2..e].to_string())
    } else {
        let e = line[at..].find('(')? + at;
        Some(line[at + 1..e].to_string())
    }
}

impl Module {
    pub fn parse(text: &str) -> R<Module> {
        let mut ctx = Ctx { global_addr: HashMap::new(), func_idx: HashMap::new(), named: HashMap::new() };
        let mut glines: Vec<(String, &str)> = vec![];
        let mut fheads: Vec<(String, usize, usize, bool)> = vec![];
        let mut aliases: Vec<(String, String)> = vec![];
        let mut pos = 0usize;
        let mut cur: Option<(String, usize)> = None;
        for line in text.split_inclusive('\n') {
            let start = pos;
            pos += line.len();
            let l = line.trim_end_matches('\n');
            if let Some((n, s)) = &cur {
                if l == "}" {
                    fheads.push((n.clone(), *s, start, true));
                    cur = None;
                }
                continue;
            }
            if l.starts_with('@') {
                if let Some((n, rest)) = global_name(l) {
                    if rest.contains(" alias ") || rest.starts_with("alias ") {
                        if let Some(k) = rest.rfind('@') {
                            let tgt: String =
                                rest[k + 1..].chars().take_while(|c| c.is_ascii() && is_word(*c as u8)).collect();
                            aliases.push((n, tgt));
                        }
                        continue;
                    }
                    glines.push((n, rest));
                }
            } else if l.starts_with("define ") {
                let n = fn_name(l).ok_or("fn name")?;
                cur = Some((n, start));
            } else if l.starts_with("declare ") {
                let n = fn_name(l).ok_or("decl name")?;
                fheads.push((n, start, pos, false));
            } else if l.starts_with('%') {
                // named type
                if let Some(e) = l.find(" = type ") {
                    let n = l[1..e].trim_matches('"').to_string();
                    let body = &l[e + 8..];
                    let t = {
                        let mut p = P { s: body.as_bytes(), i: 0, m: &ctx, regs: None };
                        p.ty().unwrap_or(Ty::Other)
                    };
                    ctx.named.insert(n, t);
                }
            }
        }
        let mut funcs = vec![];
        for (n, s, e, def) in &fheads {
            let idx = funcs.len() as u32;
            ctx.func_idx.insert(n.clone(), idx);
            funcs.push(Func {
                name: n.clone(),
                params: vec![],
                ret: Ty::Void,
                nregs: 0,
                blocks: vec![],
                src: (*s, *e),
                decoded: !*def,
            });
        }
        for (n, t) in &aliases {
            if let Some(i) = ctx.func_idx.get(t) {
                let i = *i;
                ctx.func_idx.insert(n.clone(), i);
            }
        }
        // object ids for globals: sequential; large ones take several slots
        let mut next_id = 16u64;
        let mut metas = vec![];
        for (n, rest) in &glines {
            let mut p = P { s: rest.as_bytes(), i: 0, m: &ctx, regs: None };
            let mut constant = false;
            let mut external = false;
            let mut ok = false;
            loop {
                let w = p.peek_word();
                if w.is_empty() {
                    break;
                }
                p.i += w.len();
                if p.s.get(p.i) == Some(&b'(') {
                    p.skip_balanced();
                }
                match w {
                    "external" | "extern_weak" => external = true,
                    "constant" => {
                        constant = true;
                        ok = true;
                        break;
                    }
                    "global" => {
                        ok = true;
                        break;
                    }
                    _ => {}
                }
            }
            if !ok {
                continue;
            }
            let ty = p.ty()?;
            let at = p.i;
            let addr = next_id << OBJ_SHIFT;
            next_id += 1 + (ty.size() >> OBJ_SHIFT);
            metas.push((n.clone(), rest.as_bytes(), at, ty, constant, external, addr));
        }
        for m in &metas {
            ctx.global_addr.insert(m.0.clone(), m.6);
        }
        let mut globals = vec![];
        for (n, s, at, ty, constant, external, addr) in metas {
            let init = if external {
                P::zero(&ty)
            } else {
                let mut p = P { s, i: at, m: &ctx, regs: None };
                match p.konst(&ty) {
                    Ok(v) => v,
                    Err(e) => return Err(format!("global {}: {}", n, e)),
                }
            };
            globals.push(Global { name: n, addr, ty, constant, init, external });
        }
        // decode all function bodies, in parallel
        let nth = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
        let ctxr = &ctx;
        let chunk = (funcs.len() + nth - 1) / nth.max(1);
        let errs: Vec<R<()>> = std::thread::scope(|sc| {
            let hs: Vec<_> = funcs
                .chunks_mut(chunk.max(1))
                .map(|fs| {
                    sc.spawn(move || {
                        for f in fs {
                            decode(ctxr, f, text)?;
                        }
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for e in errs {
            e?;
        }
        Ok(Module {
            funcs,
            func_idx: ctx.func_idx,
            globals,
            global_addr: ctx.global_addr,
            text_len: text.len(),
        })
    }
}

fn decode(ctx: &Ctx, f: &mut Func, text: &str) -> R<()> {
    let body = &text[f.src.0..f.src.1];
    let mut regs: HashMap<String, u32> = HashMap::new();
    let hdr_end = body.find('\n').unwrap_or(body.len());
    let hdr = &body[..hdr_end];
    // return type and parameters
    {
        let is_decl = f.decoded;
        let at = hdr.find('@').ok_or("hdr")?;
        let mut p = P { s: hdr.as_bytes(), i: 0, m: ctx, regs: None };
        p.word(); // define/declare
        while p.i < at && !p.at_type() {
            let w = p.word();
            if w.is_empty() {
                return Err(format!("header {}", &hdr[..hdr.len().min(100)]));
            }
            if w == "align" {
                p.word();
            }
            if p.s.get(p.i) == Some(&b'(') {
                p.skip_balanced();
            }
        }
        f.ret = p.ty()?;
        p.i = at + 1;
        p.name();
        p.expect(b'(')?;
        if is_decl {
            // parameter list without names; not needed
        } else if !p.eat(b')') {
            let mut n = 0;
            loop {
                if p.peek() == b'.' {
                    break;
                }
                let t = p.ty()?;
                p.skip_attrs();
                let nm = if p.eat(b'%') { p.name() } else { n.to_string() };
                let k = regs.len() as u32;
                regs.insert(nm, k);
                f.params.push((t, k));
                n += 1;
                if p.eat(b',') {
                    continue;
                }
                break;
            }
        }
    }
    if f.decoded {
        return Ok(());
    }
    // split into logical lines (join switch tables, invoke continuation)
    let mut lines: Vec<String> = vec![];
    let mut it = body[hdr_end + 1..].lines().peekable();
    while let Some(l) = it.next() {
        let l = l.trim_end();
        if l.is_empty() || l.trim_start().starts_with(';') || l.trim_start().starts_with("#dbg") {
            continue;
        }
        let mut s = l.to_string();
        let t = l.trim_start();
        if t.starts_with("switch ") && !t.contains(']') {
            for m in it.by_ref() {
                s.push(' ');
                s.push_str(m.trim());
                if m.trim_start().starts_with(']') {
                    break;
                }
            }
        }
        let is_invoke = t.starts_with("invoke ") || (t.starts_with('%') && t.contains(" = invoke "));
        if is_invoke {
            if let Some(n) = it.next() {
                s.push(' ');
                s.push_str(n.trim());
            }
        }
        lines.push(s);
    }
    // blocks
    let mut bidx: HashMap<String, u32> = HashMap::new();
    let mut nblocks = 0u32;
    let mut labels: Vec<Option<u32>> = vec![];
    for (k, l) in lines.iter().enumerate() {
        let lab = if !l.starts_with(' ') {
            // label line
            let b = l.as_bytes();
            if b[0] == b'"' {
                let e = l[1..].find('"').unwrap() + 1;
                Some(l[1..e].to_string())
            } else {
                l.find(':').map(|e| l[..e].to_string())
            }
        } else {
            None
        };
        if let Some(n) = lab {
            bidx.insert(n, nblocks);
            labels.push(Some(nblocks));
            nblocks += 1;
        } else {
            if k == 0 {
                // implicit entry label: next unnamed number
                let unnamed = (0..).take_while(|n: &usize| regs.contains_key(&n.to_string())).count();
                bidx.insert(unnamed.to_string(), 0);
                nblocks = 1;
            }
            labels.push(None);
        }
    }
    f.blocks = vec![Block::default(); nblocks as usize];
    let mut cur = 0usize;
    for (k, l) in lines.iter().enumerate() {
        if let Some(b) = labels[k] {
            cur = b as usize;
            continue;
        }
        let mut p = P { s: l.as_bytes(), i: 0, m: ctx, regs: Some(&mut regs) };
        match instr(&mut p, &bidx, &mut f.blocks[cur]) {
            Ok(()) => {}
            Err(e) => {
                f.blocks[cur].ins.push(Ins {
                    i: I::Unsupported(format!("{}: {}", e, &l[..l.len().min(160)])),
                    dst: NONE,
                    normal: NONE,
                });
            }
        }
    }
    f.nregs = regs.len() as u32;
    f.decoded = true;
    Ok(())
}

fn label(p: &mut P, bidx: &HashMap<String, u32>) -> R<u32> {
    p.eat_word("label");
    p.expect(b'%')?;
    let n = p.name();
    bidx.get(&n).copied().ok_or(format!("label {}", n))
}

fn instr(p: &mut P, bidx: &HashMap<String, u32>, blk: &mut Block) -> R<()> {
    let mut dst = NONE;
    if p.peek() == b'%' {
        p.i += 1;
        let n = p.name();
        let regs = p.regs.as_mut().unwrap();
        let k = regs.len() as u32;
        dst = *regs.entry(n).or_insert(k);
        p.expect(b'=')?;
    }
    let mut w = p.word();
    if matches!(w, "tail" | "musttail" | "notail") {
        w = p.word();
    }
    let mut normal = NONE;
    let bin = |w: &str| -> Option<Bin> {
        Some(match w {
            "add" => Bin::Add,
            "sub" => Bin::Sub,
            "mul" => Bin::Mul,
            "udiv" => Bin::UDiv,
            "sdiv" => Bin::SDiv,
            "urem" => Bin::URem,
            "srem" => Bin::SRem,
            "shl" => Bin::Shl,
            "lshr" => Bin::LShr,
            "ashr" => Bin::AShr,
            "and" => Bin::And,
            "or" => Bin::Or,
            "xor" => Bin::Xor,
            "fadd" => Bin::FAdd,
            "fsub" => Bin::FSub,
            "fmul" => Bin::FMul,
            "fdiv" => Bin::FDiv,
            "frem" => Bin::FRem,
            _ => return None,
        })
    };
    let cast = |w: &str| -> Option<Cast> {
        Some(match w {
            "trunc" => Cast::Trunc,
            "zext" => Cast::ZExt,
            "sext" => Cast::SExt,
            "bitcast" => Cast::Bitcast,
            "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt,
            "inttoptr" => Cast::IntToPtr,
            "uitofp" => Cast::UIToFP,
            "sitofp" => Cast::SIToFP,
            "fptoui" => Cast::FPToUI,
            "fptosi" => Cast::FPToSI,
            "fptrunc" => Cast::FPTrunc,
            "fpext" => Cast::FPExt,
            _ => return None,
        })
    };
    let i = if let Some(op) = bin(w) {
        while !p.at_type() {
            if p.word().is_empty() {
                return Err("bin".into());
            }
        }
        let ty = p.ty()?;
        let a = p.op(&ty)?;
        p.expect(b',')?;
        let b = p.op(&ty)?;
        I::Bin { op, ty, a, b }
    } else if let Some(c) = cast(w) {
        while !p.at_type() {
            if p.word().is_empty() {
                return Err("cast".into());
            }
        }
        let from = p.ty()?;
        let a = p.op(&from)?;
        if !p.eat_word("to") {
            return Err("cast to".into());
        }
        let to = p.ty()?;
        I::Cast { c, from, to, a }
    } else {
        match w {
            "icmp" => {
                let mut pr = p.word();
                if pr == "samesign" {
                    pr = p.word();
                }
                let ty = p.ty()?;
                let a = p.op(&ty)?;
                p.expect(b',')?;
                let b = p.op(&ty)?;
                let pr = match pr {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => return Err("pred".into()),
                };
                I::Icmp { p: pr, ty, a, b }
            }
            "fcmp" => {
                let mut pr = p.word();
                while matches!(pr, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    pr = p.word();
                }
                let ty = p.ty()?;
                let a = p.op(&ty)?;
                p.expect(b',')?;
                let b = p.op(&ty)?;
                I::Fcmp { p: pr.to_string(), ty, a, b }
            }
            "fneg" => {
                while !p.at_type() {
                    p.word();
                }
                let ty = p.ty()?;
                let a = p.op(&ty)?;
                I::FNeg { ty, a }
            }
            "select" => {
                while !p.at_type() {
                    p.word();
                }
                let (cty, c) = p.typed_op()?;
                p.expect(b',')?;
                let (ty, a) = p.typed_op()?;
                p.expect(b',')?;
                let (_, b) = p.typed_op()?;
                I::Select { cty, ty, c, a, b }
            }
            "load" => {
                while !p.at_type() {
                    p.word();
                }
                let ty = p.ty()?;
                p.expect(b',')?;
                let (_, q) = p.typed_op()?;
                I::Load { ty, p: q }
            }
            "store" => {
                while !p.at_type() {
                    p.word();
                }
                let (ty, v) = p.typed_op()?;
                p.expect(b',')?;
                let (_, q) = p.typed_op()?;
                I::Store { ty, v, p: q }
            }
            "getelementptr" => {
                while matches!(p.peek_word(), "inbounds" | "nuw" | "nusw") {
                    p.word();
                }
                let ety = p.ty()?;
                p.expect(b',')?;
                let (base, off, terms) = p.gep_rest(&ety)?;
                I::Gep { base, off, terms }
            }
            "alloca" => {
                let ty = p.ty()?;
                let mut count = None;
                if p.eat(b',') {
                    if p.at_type() {
                        let (_, c) = p.typed_op()?;
                        count = Some(c);
                    }
                }
                I::Alloca { size: ty.size(), count }
            }
            "call" | "invoke" => {
                while !p.at_type() {
                    let w = p.word();
                    if w.is_empty() {
                        return Err("call".into());
                    }
                    if w == "align" {
                        p.word();
                    }
                    if p.s.get(p.i) == Some(&b'(') {
                        p.skip_balanced();
                    }
                }
                let ret = p.ty()?;
                if p.peek() == b'(' {
                    p.skip_balanced();
                }
                let callee = if p.eat_word("asm") {
                    // `asm sideeffect "...", "..."(args)`
                    let rest = p.rest(400);
                    if rest.contains("\"\", \"") {
                        // empty template: a barrier
                        let mut q = 0;
                        while q < 4 {
                            if p.s[p.i] == b'"' {
                                q += 1;
                            }
                            p.i += 1;
                        }
                        Callee::Nop
                    } else {
                        return Err("inline asm".into());
                    }
                } else if p.eat(b'@') {
                    let n = p.name();
                    match p.m.func_idx.get(&n) {
                        Some(i) => Callee::Func(*i),
                        None => Callee::Ext(n),
                    }
                } else {
                    Callee::Ind(p.op(&Ty::Ptr)?)
                };
                p.expect(b'(')?;
                let mut args = vec![];
                if !p.eat(b')') {
                    loop {
                        if p.peek_word() == "metadata" {
                            // skip metadata argument
                            let mut d = 0;
                            while p.i < p.s.len() {
                                match p.s[p.i] {
                                    b'(' => d += 1,
                                    b')' if d == 0 => break,
                                    b')' => d -= 1,
                                    b',' if d == 0 => break,
                                    _ => {}
                                }
                                p.i += 1;
                            }
                            args.push((Ty::Other, Op::K(Val::C(0))));
                        } else {
                            args.push(p.typed_op()?);
                        }
                        if p.eat(b',') {
                            continue;
                        }
                        p.expect(b')')?;
                        break;
                    }
                }
                if w == "invoke" {
                    // ... to label %x unwind label %y
                    let s = std::str::from_utf8(&p.s[p.i..]).unwrap();
                    let k = s.find("to label ").ok_or("invoke")?;
                    p.i += k + 3;
                    normal = label(p, bidx)?;
                }
                I::Call { callee, args, ret }
            }
            "extractvalue" => {
                let (_, a) = p.typed_op()?;
                let mut idx = vec![];
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    idx.push(p.word().parse().map_err(|_| "idx".to_string())?);
                }
                I::Extract { a, idx }
            }
            "insertvalue" => {
                let (ty, a) = p.typed_op()?;
                p.expect(b',')?;
                let (_, v) = p.typed_op()?;
                let mut idx = vec![];
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    idx.push(p.word().parse().map_err(|_| "idx".to_string())?);
                }
                I::Insert { ty, a, v, idx }
            }
            "extractelement" => {
                let (ty, a) = p.typed_op()?;
                p.expect(b',')?;
                let (_, i) = p.typed_op()?;
                I::ExtElem { ty, a, i }
            }
            "insertelement" => {
                let (ty, a) = p.typed_op()?;
                p.expect(b',')?;
                let (_, v) = p.typed_op()?;
                p.expect(b',')?;
                let (_, i) = p.typed_op()?;
                I::InsElem { ty, a, v, i }
            }
            "shufflevector" => {
                let (ty, a) = p.typed_op()?;
                p.expect(b',')?;
                let (_, b) = p.typed_op()?;
                p.expect(b',')?;
                let (_, m) = p.typed_op()?;
                let mask = match m {
                    Op::K(Val::A(v)) => v
                        .iter()
                        .map(|x| match x {
                            Val::C(c) => *c as i64,
                            _ => 0,
                        })
                        .collect(),
                    _ => return Err("shuffle mask".into()),
                };
                I::Shuffle { ty, a, b, mask }
            }
            "freeze" => {
                let (_, a) = p.typed_op()?;
                I::Copy { a }
            }
            "atomicrmw" => {
                p.eat_word("volatile");
                let op = p.word().to_string();
                let (_, q) = p.typed_op()?;
                p.expect(b',')?;
                let (ty, v) = p.typed_op()?;
                I::Rmw { op, ty, p: q, v }
            }
            "cmpxchg" => {
                while !p.at_type() {
                    p.word();
                }
                let (_, q) = p.typed_op()?;
                p.expect(b',')?;
                let (ty, c) = p.typed_op()?;
                p.expect(b',')?;
                let (_, n) = p.typed_op()?;
                I::CmpXchg { ty, p: q, c, n }
            }
            "fence" => I::Nop,
            "phi" => {
                while !p.at_type() {
                    p.word();
                }
                let ty = p.ty()?;
                let mut v = vec![];
                loop {
                    p.expect(b'[')?;
                    let o = p.op(&ty)?;
                    p.expect(b',')?;
                    p.expect(b'%')?;
                    let n = p.name();
                    p.expect(b']')?;
                    if let Some(b) = bidx.get(&n) {
                        v.push((*b, o));
                    } else {
                        return Err(format!("phi label {}", n));
                    }
                    if p.peek() == b',' {
                        let save = p.i;
                        p.i += 1;
                        if p.peek() == b'[' {
                            continue;
                        }
                        p.i = save;
                    }
                    break;
                }
                blk.phis.push((dst, v));
                return Ok(());
            }
            "br" => {
                if p.peek_word() == "label" {
                    I::Br(label(p, bidx)?)
                } else {
                    let (_, c) = p.typed_op()?;
                    p.expect(b',')?;
                    let t = label(p, bidx)?;
                    p.expect(b',')?;
                    let f = label(p, bidx)?;
                    I::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (ty, v) = p.typed_op()?;
                p.expect(b',')?;
                let d = label(p, bidx)?;
                p.expect(b'[')?;
                let mut cases = vec![];
                while !p.eat(b']') {
                    let t = p.ty()?;
                    let k = p.konst(&t)?;
                    p.expect(b',')?;
                    let l = label(p, bidx)?;
                    if let Val::C(c) = k {
                        cases.push((c, l));
                    }
                }
                I::Switch { ty, v, d, cases }
            }
            "ret" => {
                let t = p.ty()?;
                if t == Ty::Void {
                    I::Ret(None)
                } else {
                    p.skip_attrs();
                    I::Ret(Some(p.op(&t)?))
                }
            }
            "unreachable" => I::Unreachable,
            "landingpad" | "resume" | "cleanup" | "catch" | "filter" => {
                I::Unsupported(format!("unwinding: {}", w))
            }
            _ => return Err(format!("instr {}", w)),
        }
    };
    blk.ins.push(Ins { i, dst, normal });
    Ok(())
}
