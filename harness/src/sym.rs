//! Interface to the symbolic executor. In the IR build the functions are external and implemented
//! by the engine; in the native build they read a recorded list of inputs.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn sym_int(bits: u32) -> u64;
        pub fn sym_choose(n: u32) -> u32;
        pub fn sym_assume(c: bool);
        pub fn sym_check(c: bool, p: *const u8, n: usize);
        pub fn sym_cover(p: *const u8, n: usize);
        pub fn sym_out(v: u64);
        pub fn sym_tok(kind: u32, bits: u64, prec: u32, buf: *mut u8) -> usize;
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_is_symbolic(v: u64) -> u32;
        pub fn sym_alloc_limit(n: u64);
        pub fn sym_patience(n: u64);
        pub fn sym_stop();
    }
}

#[cfg(feature = "native")]
pub mod imp {
    use std::cell::RefCell;
    use std::sync::atomic::{AtomicU64, Ordering};

    #[derive(Default)]
    pub struct Ctx {
        pub inputs: Vec<u64>,
        pub pos: usize,
        pub outs: Vec<u64>,
        pub failed: Vec<String>,
        pub covers: Vec<String>,
    }
    thread_local! { pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default()); }
    pub static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
    pub static OVER: AtomicU64 = AtomicU64::new(0);
    pub struct Stop(pub &'static str);

    fn stop(why: &'static str) -> ! {
        std::panic::resume_unwind(Box::new(Stop(why)))
    }
    fn next() -> u64 {
        let v = CTX.with(|c| {
            let mut c = c.borrow_mut();
            let p = c.pos;
            c.pos += 1;
            c.inputs.get(p).copied()
        });
        v.unwrap_or_else(|| stop("exhausted"))
    }
    pub unsafe fn sym_int(bits: u32) -> u64 {
        let v = next();
        if bits >= 64 { v } else { v & ((1u64 << bits) - 1) }
    }
    pub unsafe fn sym_choose(n: u32) -> u32 {
        let v = next();
        if v >= n as u64 { stop("assume") }
        v as u32
    }
    pub unsafe fn sym_assume(c: bool) {
        if !c { stop("assume") }
    }
    pub unsafe fn sym_check(c: bool, p: *const u8, n: usize) {
        if !c {
            let s = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned();
            CTX.with(|x| x.borrow_mut().failed.push(s));
        }
    }
    pub unsafe fn sym_cover(p: *const u8, n: usize) {
        let s = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned();
        CTX.with(|x| x.borrow_mut().covers.push(s));
    }
    pub unsafe fn sym_out(v: u64) {
        CTX.with(|x| x.borrow_mut().outs.push(v));
    }
    pub unsafe fn sym_tok(_: u32, _: u64, _: u32, _: *mut u8) -> usize { 0 }
    pub unsafe fn sym_concretize(v: u64) -> u64 { v }
    pub unsafe fn sym_is_symbolic(_: u64) -> u32 { 0 }
    pub unsafe fn sym_alloc_limit(n: u64) {
        LIMIT.store(n, Ordering::SeqCst);
    }
    pub unsafe fn sym_patience(_: u64) {}
    pub unsafe fn sym_stop() { stop("stop") }
}

pub fn byte() -> u8 { unsafe { imp::sym_int(8) as u8 } }
pub fn u16_() -> u16 { unsafe { imp::sym_int(16) as u16 } }
pub fn u32_() -> u32 { unsafe { imp::sym_int(32) as u32 } }
pub fn u64_() -> u64 { unsafe { imp::sym_int(64) } }
/// One of `0..n`; the executor forks here.
pub fn choose(n: usize) -> usize { unsafe { imp::sym_choose(n as u32) as usize } }
pub fn flip() -> bool { choose(2) == 1 }
pub fn assume(c: bool) { unsafe { imp::sym_assume(c) } }
pub fn check(c: bool, m: &str) { unsafe { imp::sym_check(c, m.as_ptr(), m.len()) } }
pub fn cover(m: &str) { unsafe { imp::sym_cover(m.as_ptr(), m.len()) } }
pub fn out(v: u64) { unsafe { imp::sym_out(v) } }
pub fn concretize(v: u64) -> u64 { unsafe { imp::sym_concretize(v) } }
pub fn alloc_limit(n: u64) { unsafe { imp::sym_alloc_limit(n) } }
/// The executor allows this many times the usual number of steps.
pub fn patience(n: u64) { unsafe { imp::sym_patience(n) } }
pub fn stop() { unsafe { imp::sym_stop() } }

pub const F32: u32 = 0;
pub const F64: u32 = 1;
pub const USIZE: u32 = 2;

/// Append the text of a number token standing for a symbolic value; false if it is concrete.
fn tok(kind: u32, bits: u64, prec: u32, out: &mut Vec<u8>) -> bool {
    let mut b = [0u8; 32];
    let n = unsafe { imp::sym_tok(kind, bits, prec, b.as_mut_ptr()) };
    out.extend_from_slice(&b[..n]);
    n > 0
}

/// The text `{}` gives for the number.
pub fn put_f32(x: f32, out: &mut Vec<u8>) {
    if !tok(F32, x.to_bits() as u64, 0, out) {
        out.extend_from_slice(x.to_string().as_bytes());
    }
}
pub fn put_f64(x: f64, out: &mut Vec<u8>) {
    if !tok(F64, x.to_bits(), 0, out) {
        out.extend_from_slice(x.to_string().as_bytes());
    }
}
pub fn put_usize(x: usize, out: &mut Vec<u8>) {
    if !tok(USIZE, x as u64, 0, out) {
        out.extend_from_slice(x.to_string().as_bytes());
    }
}
/// The text `{:.p$}` gives for the number.
pub fn put_f32_p(x: f32, p: usize, out: &mut Vec<u8>) {
    if !tok(F32, x.to_bits() as u64, p as u32 + 1, out) {
        out.extend_from_slice(format!("{:.*}", p, x).as_bytes());
    }
}
pub fn put_f64_p(x: f64, p: usize, out: &mut Vec<u8>) {
    if !tok(F64, x.to_bits(), p as u32 + 1, out) {
        out.extend_from_slice(format!("{:.*}", p, x).as_bytes());
    }
}

/// Any finite f32.
pub fn f32_finite() -> f32 {
    let b = u32_();
    assume(b & 0x7f80_0000 != 0x7f80_0000);
    f32::from_bits(b)
}
/// Any f32 bit pattern.
pub fn f32_any() -> f32 { f32::from_bits(u32_()) }

// ---- called by the engine in place of number formatting and parsing of symbolic values.

#[cfg(not(feature = "native"))]
mod stubs {
    use super::*;
    use std::fmt::{self, Write};
    use std::time::Duration;

    #[no_mangle]
    pub extern "C" fn stub_lex_f32(out: *mut Result<f32, lexical::Error>, bits: u32) {
        unsafe { out.write(Ok(f32::from_bits(bits))) }
    }
    #[no_mangle]
    pub extern "C" fn stub_lex_f64(out: *mut Result<f64, lexical::Error>, bits: u64) {
        unsafe { out.write(Ok(f64::from_bits(bits))) }
    }
    #[no_mangle]
    pub extern "C" fn stub_lex_usize(out: *mut Result<usize, lexical::Error>, v: u64) {
        unsafe { out.write(Ok(v as usize)) }
    }
    #[no_mangle]
    pub fn stub_str_f32(bits: u32) -> Result<f32, std::num::ParseFloatError> {
        Ok(f32::from_bits(bits))
    }
    #[no_mangle]
    pub fn stub_str_f64(bits: u64) -> Result<f64, std::num::ParseFloatError> {
        Ok(f64::from_bits(bits))
    }
    fn emit(kind: u32, bits: u64, f: &mut fmt::Formatter<'_>) -> bool {
        let prec = match f.precision() {
            Some(p) => p as u32 + 1,
            None => 0,
        };
        let mut b = [0u8; 32];
        let n = unsafe { imp::sym_tok(kind, bits, prec, b.as_mut_ptr()) };
        f.write_str(unsafe { std::str::from_utf8_unchecked(&b[..n]) }).is_err()
    }
    #[no_mangle]
    pub extern "C" fn stub_fmt_f32(x: f32, f: *mut fmt::Formatter<'_>) -> bool {
        unsafe { emit(F32, x.to_bits() as u64, &mut *f) }
    }
    #[no_mangle]
    pub extern "C" fn stub_fmt_f64(x: f64, f: *mut fmt::Formatter<'_>) -> bool {
        unsafe { emit(F64, x.to_bits(), &mut *f) }
    }
    #[no_mangle]
    pub extern "C" fn stub_fmt_usize(x: u64, f: *mut fmt::Formatter<'_>) -> bool {
        let mut b = [0u8; 32];
        let n = unsafe { imp::sym_tok(USIZE, x, 0, b.as_mut_ptr()) };
        unsafe { (*f).write_str(std::str::from_utf8_unchecked(&b[..n])).is_err() }
    }
    #[no_mangle]
    pub extern "C" fn stub_dur(
        out: *mut Result<Duration, std::time::TryFromFloatSecsError>,
        secs: u64,
        nanos: u32,
    ) {
        unsafe { out.write(Ok(Duration::new(secs, nanos))) }
    }
}
