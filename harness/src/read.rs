//! C09: how bytes arrive. C10: layout.
use crate::doc::*;
use crate::sym::*;
use bvh_anim::errors::{LoadError, LoadErrorKind, LoadJointsError, LoadMotionError};
use bvh_anim::*;
use std::convert::TryFrom;
use std::io::{self, BufRead, BufReader, Read};
use std::str::FromStr;


/// A small animation with any values.
fn small(c: usize, f: usize) -> Spec {
    let mut js = vec![J::new(b"ab", None, 0), J::new(b"c", Some(0), 1)];
    for k in 0..c {
        js[k % 2].ch.push((k + 2) % 6);
    }
    js[0].off = v3();
    js[1].end = Some(v3());
    spec(js, f, frame_time())
}

// ---------------------------------------------------------------- C09

pub const KINDS: [io::ErrorKind; 4] = [
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::WouldBlock,
];

/// A reader that hands out the bytes in pieces, asks for retries and may fail.
struct Pieces<'a> {
    data: &'a [u8],
    pos: usize,
    /// Ends of the pieces, ascending.
    cuts: Vec<usize>,
    /// A retry is asked for before the byte at this position, this many times.
    retry_at: usize,
    retries: usize,
    /// A failure instead of the byte at this position.
    fail_at: usize,
    kind: io::ErrorKind,
    failed: bool,
}

impl<'a> Pieces<'a> {
    fn new(data: &'a [u8]) -> Self {
        Pieces {
            data,
            pos: 0,
            cuts: vec![],
            retry_at: usize::MAX,
            retries: 0,
            fail_at: usize::MAX,
            kind: io::ErrorKind::Other,
            failed: false,
        }
    }
    fn end(&self) -> usize {
        let mut e = self.data.len();
        for c in &self.cuts {
            if *c > self.pos && *c < e {
                e = *c;
            }
        }
        if self.retries > 0 && self.retry_at > self.pos && self.retry_at < e {
            e = self.retry_at;
        }
        if self.fail_at > self.pos && self.fail_at < e {
            e = self.fail_at;
        }
        e
    }
    fn ready(&mut self) -> io::Result<()> {
        if self.retries > 0 && self.pos == self.retry_at {
            self.retries -= 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        if self.pos == self.fail_at && !self.failed {
            self.failed = true;
            return Err(io::Error::from(self.kind));
        }
        Ok(())
    }
}

impl Read for Pieces<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.ready()?;
        let n = (self.end() - self.pos).min(b.len());
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl BufRead for Pieces<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.ready()?;
        Ok(&self.data[self.pos..self.end()])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}

/// What loading gave, as something to compare.
fn compare(r: Result<Bvh, LoadError>, want: &Result<Bvh, LoadError>) {
    match (r, want) {
        (Ok(a), Ok(b)) => {
            check_same(&a, b, "the same animation however the bytes arrive");
            cover("loaded");
        }
        (Err(a), Err(b)) => {
            check(a.line() == b.line(), "the same error however the bytes arrive");
            check(a.to_string() == b.to_string(), "the same error however the bytes arrive");
            cover("rejected");
        }
        _ => check(false, "the same outcome however the bytes arrive"),
    }
}

/// A file that loads, or one with a fault.
fn some_text(which: usize) -> Vec<u8> {
    let s = small(2, 2);
    let mut ls = lines(&s);
    let n = ls.len();
    match which {
        0 => {}
        1 => {
            ls[3].t.pop();
        }
        2 => {
            ls[n - 1].t[0] = b"x".to_vec();
        }
        3 => {
            ls.remove(n - 5);
        }
        4 => {
            ls.truncate(8);
        }
        _ => {
            ls[n - 1].t.pop();
        }
    }
    let mut t = render(&ls);
    if which == 0 && choose(2) == 1 {
        t.pop(); // no line end at the end
    }
    t
}

/// One cut anywhere, with or without retries there.
pub fn one_cut(files: usize) {
    let t = some_text(choose(files));
    let want = from_bytes(&t[..]);
    let p = choose(t.len() + 1);
    let mut r = Pieces::new(&t);
    r.cuts.push(p);
    r.retry_at = p;
    r.retries = choose(3);
    let res = match choose(2) {
        0 => from_reader(r),
        _ => Bvh::from_reader(&mut r),
    };
    compare(res, &want);
}

/// Two cuts anywhere.
pub fn two_cuts() {
    let s = small(1, 1);
    let t = text(&s);
    let want = from_bytes(&t[..]);
    let p = choose(t.len());
    let q = choose(t.len());
    assume(q > p);
    let mut r = Pieces::new(&t);
    r.cuts.push(p);
    r.cuts.push(q);
    r.retry_at = q;
    r.retries = 1;
    compare(from_reader(r), &want);
}

/// Equal pieces of every size, through this reader or the standard buffered one.
pub fn equal_pieces(files: usize) {
    let t = some_text(choose(files));
    let want = from_bytes(&t[..]);
    let n = 1 + choose(24);
    let mut r = Pieces::new(&t);
    match choose(4) {
        0 => {
            let mut k = n;
            while k < t.len() {
                r.cuts.push(k);
                k += n;
            }
            compare(from_reader(r), &want);
        }
        1 => compare(from_reader(BufReader::with_capacity(n, &t[..])), &want),
        2 => {
            r.retry_at = n;
            r.retries = 2;
            compare(from_reader(BufReader::with_capacity(n, r)), &want);
        }
        _ => {
            r.cuts.push(3);
            r.cuts.push(50);
            let mut b = BufReader::with_capacity(n + 2, r);
            let d: &mut dyn BufRead = &mut b;
            compare(from_reader(d), &want);
        }
    }
}

pub fn io_kind(e: &LoadError) -> Option<io::ErrorKind> {
    match e.kind() {
        LoadErrorKind::Joints(LoadJointsError::Io(e)) => Some(e.kind()),
        LoadErrorKind::Motion(LoadMotionError::Io(e)) => Some(e.kind()),
        _ => None,
    }
}

/// A failure at any byte, also where the end would be.
pub fn failing() {
    let s = small(2, 2);
    let t = text(&s);
    let p = choose(t.len() + 1);
    let k = KINDS[choose(4)];
    let mut r = Pieces::new(&t);
    r.fail_at = p;
    r.kind = k;
    if flip() {
        r.retry_at = p;
        r.retries = 1;
    }
    let res = if flip() { from_reader(r) } else { from_reader(BufReader::with_capacity(16, r)) };
    match res {
        Ok(_) => check(false, "a failing reader never gives an animation"),
        Err(e) => {
            check(io_kind(&e) == Some(k), "the read failure is reported");
            check(e.line().is_none(), "a read failure concerns no line");
            check(!e.to_string().is_empty(), "the error can be displayed");
            cover("reported");
        }
    }
}

/// A failure of any kind, in one of several places.
pub fn failing_kinds() {
    use crate::write::{failure, ALL_KINDS};
    struct Fails<'a> {
        data: &'a [u8],
        pos: usize,
        at: usize,
        kind: io::ErrorKind,
        how: usize,
    }
    impl Read for Fails<'_> {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            let n = {
                let c = self.fill_buf()?;
                let n = c.len().min(b.len());
                b[..n].copy_from_slice(&c[..n]);
                n
            };
            self.consume(n);
            Ok(n)
        }
    }
    impl BufRead for Fails<'_> {
        fn fill_buf(&mut self) -> io::Result<&[u8]> {
            if self.pos == self.at {
                return Err(failure(self.kind, self.how));
            }
            Ok(&self.data[self.pos..self.at])
        }
        fn consume(&mut self, n: usize) {
            self.pos += n;
        }
    }
    let s = small(1, 2);
    let ls = lines(&s);
    let t = render(&ls);
    // at the start of a line, inside one, at the end
    let w = choose(ls.len() + 1);
    let mut at = render(&ls[..w]).len();
    if w < ls.len() && flip() {
        at += 2;
    }
    let k = ALL_KINDS[choose(24)];
    match from_reader(Fails { data: &t, pos: 0, at, kind: k, how: choose(2) }) {
        Ok(_) => check(false, "a failing reader never gives an animation"),
        Err(e) => {
            check(io_kind(&e) == Some(k), "the read failure is reported");
            check(e.line().is_none(), "a read failure concerns no line");
            crate::damage::displays(&e);
            cover("reported");
        }
    }
}

/// Every road into the library.
pub fn roads() {
    let t = some_text(choose(6));
    let want = from_bytes(&t[..]);
    let text = match std::str::from_utf8(&t) {
        Ok(s) => s,
        Err(_) => {
            check(false, "text");
            return;
        }
    };
    let res = match choose(11) {
        0 => Bvh::from_bytes(&t),
        1 => Bvh::from_bytes(text),
        2 => bvh_anim::from_str(text),
        3 => Bvh::from_str(text),
        4 => text.parse::<Bvh>(),
        5 => Bvh::try_from(text),
        6 => Bvh::try_from(&t[..]),
        7 => Bvh::try_from(bstr::ByteSlice::as_bstr(&t[..])),
        8 => from_reader(&t[..]),
        9 => Bvh::from_reader(io::Cursor::new(&t)),
        _ => from_bytes(&t),
    };
    compare(res, &want);
}

/// Any bytes at places of a file, by every road that takes bytes or, where they are text, text.
pub fn roads_bytes(n: usize) {
    let mut t: Vec<u8> = b"HIERARCHY\nROOT ab\n{\n  OFFSET 1.5 0 3\n  CHANNELS 1 Xposition\n  End Site\n  {\n    OFFSET 0 0 1\n  }\n}\nMOTION\nFrames: 1\nFrame Time: 0.5\n1.25\n".to_vec();
    const AT: [usize; 14] = [0, 12, 15, 17, 48, 55, 66, 86, 96, 112, 29, 131, 133, 127];
    // several digits of one number are hard for the solver
    let at = AT[choose(match n {
        1 => 14,
        2 => 13,
        _ => 10,
    })];
    for k in 0..n {
        t[at + k] = byte();
    }
    let want = from_bytes(&t[..]);
    let res = match choose(8) {
        0 => Bvh::from_bytes(&t),
        1 => Bvh::try_from(&t[..]),
        2 => Bvh::try_from(bstr::ByteSlice::as_bstr(&t[..])),
        3 => from_reader(&t[..]),
        4 => Bvh::from_reader(io::Cursor::new(&t)),
        k => match std::str::from_utf8(&t) {
            Ok(s) => {
                cover("text");
                match k {
                    5 => bvh_anim::from_str(s),
                    6 => s.parse::<Bvh>(),
                    _ => Bvh::try_from(s),
                }
            }
            Err(_) => {
                cover("no text");
                return;
            }
        },
    };
    compare(res, &want);
}

// ---------------------------------------------------------------- C10

fn blanks(k: usize) -> &'static [u8] {
    const B: [&[u8]; 7] = [b" ", b"\t", b"  ", b" \t", b"\t\x0c\t", b"      ", b"\x0c"];
    B[k]
}
fn indent(k: usize, d: usize) -> Vec<u8> {
    let mut v = vec![];
    let n = match k {
        0 => 0,
        5 => 7,
        _ => d,
    };
    for _ in 0..n {
        v.extend_from_slice(match k {
            1 => b"\t",
            2 => b"  ",
            3 => b"\t ",
            _ => b" ",
        });
    }
    v
}

#[derive(Clone, Copy)]
struct Style {
    indent: usize,
    gap: usize,
    trail: usize,
    crlf: bool,
    before: usize,
}

fn style() -> Style {
    Style { indent: choose(6), gap: choose(7), trail: choose(4), crlf: flip(), before: choose(5) }
}

fn layout(ls: &[L], st: &dyn Fn(usize) -> Style, last: usize) -> Vec<u8> {
    let mut v = vec![];
    for (i, l) in ls.iter().enumerate() {
        let s = st(i);
        let eol: &[u8] = if s.crlf { b"\r\n" } else { b"\n" };
        match s.before {
            0 => {}
            1 => v.extend_from_slice(eol),
            2 => {
                v.extend_from_slice(b" \t");
                v.extend_from_slice(eol);
            }
            3 => {
                v.extend_from_slice(eol);
                v.extend_from_slice(b"\t");
                v.extend_from_slice(eol);
                v.extend_from_slice(eol);
            }
            _ => v.extend_from_slice(b"\r\n"),
        }
        v.extend_from_slice(&indent(s.indent, l.depth));
        for (k, t) in l.t.iter().enumerate() {
            if k > 0 {
                v.extend_from_slice(blanks(s.gap));
            }
            v.extend_from_slice(t);
        }
        if s.trail > 0 {
            v.extend_from_slice(blanks(s.trail - 1));
        }
        if i + 1 < ls.len() || last == 0 {
            v.extend_from_slice(eol);
        } else if last == 2 {
            v.extend_from_slice(eol);
            v.extend_from_slice(b"  ");
        } else if last == 3 {
            v.extend_from_slice(eol);
            v.extend_from_slice(b"\n\r\n\t\n");
        }
    }
    v
}

const PLAIN: Style = Style { indent: 1, gap: 0, trail: 0, crlf: false, before: 0 };

fn same_load(v: &[u8], s: &Spec) {
    let b = loaded(from_bytes(v));
    check_skeleton(&b, s);
    check_motion(&b, s);
    let p = loaded(from_bytes(&text(s)[..]));
    check(b == p, "layouts of the same file load to equal animations");
    cover("loaded");
}

/// One style throughout.
pub fn global() {
    let s = small(3, 2);
    let ls = lines(&s);
    let st = style();
    let v = layout(&ls, &|_| st, choose(4));
    same_load(&v, &s);
}

/// One line in another style.
pub fn local(full: bool) {
    let s = small(2, 2);
    let ls = lines(&s);
    let at = choose(ls.len());
    let st = if full { style() } else {
        let mut st = PLAIN;
        match choose(5) {
            0 => st.indent = choose(6),
            1 => st.gap = 1 + choose(6),
            2 => st.trail = 1 + choose(3),
            3 => st.crlf = true,
            _ => st.before = 1 + choose(4),
        }
        st
    };
    let v = layout(&ls, &|i| if i == at { st } else { PLAIN }, 0);
    same_load(&v, &s);
}

/// One gap, indentation or line end made of any blanks.
pub fn any_blanks(n: usize) {
    let s = small(2, 2);
    let ls = lines(&s);
    let at = choose(ls.len());
    let place = choose(5);
    let k = choose(n + 1);
    let mut w = vec![];
    for _ in 0..k {
        let b = byte();
        assume((b == b' ') | (b == b'\t') | (b == 0x0c) | (b == b'\r'));
        w.push(b);
    }
    let mut v = vec![];
    for (i, l) in ls.iter().enumerate() {
        if i == at && place == 4 {
            v.extend_from_slice(&w);
            v.push(b'\n');
        }
        if i == at && place == 0 {
            v.extend_from_slice(&w);
        }
        for (j, t) in l.t.iter().enumerate() {
            if j > 0 {
                v.push(b' ');
                if i == at && (place == 1 && j == 1 || place == 2 && j == l.t.len() - 1) {
                    v.extend_from_slice(&w);
                }
            }
            v.extend_from_slice(t);
        }
        if i == at && place == 3 {
            v.extend_from_slice(&w);
        }
        v.push(b'\n');
    }
    same_load(&v, &s);
}

/// Names of any bytes are kept in any layout.
pub fn names(n: usize) {
    let mut s = small(1, 1);
    let at = choose(2);
    let mut v = vec![0xff];
    v.extend_from_slice(&name_bytes(n));
    v.push(0x80);
    no_white(&v);
    s.js[at].name = v;
    let ls = lines(&s);
    let st = Style { indent: 2, gap: choose(2), trail: choose(2), crlf: flip(), before: 0 };
    let t = layout(&ls, &|_| st, choose(2));
    let b = loaded(from_bytes(&t[..]));
    check_skeleton(&b, &s);
    check_motion(&b, &s);
    cover("loaded");
}

/// Motion values spread over lines in another way than one frame per line.
pub fn blank_between(n: usize) {
    let s = small(2, n);
    let ls = lines(&s);
    let mut st = vec![];
    for l in &ls {
        let mut x = PLAIN;
        match l.k {
            K::Motion | K::Frames | K::Time | K::Row(_) => x.before = choose(4),
            _ => {}
        }
        st.push(x);
    }
    let v = layout(&ls, &|i| st[i], choose(4));
    let b = loaded(from_bytes(&v[..]));
    check_skeleton(&b, &s);
    check_motion(&b, &s);
    cover("loaded");
}

