//! C01, C04, C05: any input.
use crate::doc::*;
use crate::sym::*;
use bvh_anim::errors::LoadError;
use bvh_anim::*;
use std::convert::TryFrom;
use std::io::{BufRead, Read};

/// What is checked of the outcome.
#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Total,
    Channels,
    Tree,
    Errors,
}

fn outcome(r: Result<Bvh, LoadError>, what: What) {
    match r {
        Ok(b) => {
            match what {
                What::Total | What::Errors => {}
                What::Channels => check_channels(&b),
                What::Tree => check_tree(&b),
            }
            out(b.joints().count() as u64);
            out(b.frames().len() as u64);
            cover("accepted");
        }
        Err(e) => {
            if what == What::Errors {
                crate::damage::displays(&e);
            }
            match e.line() {
                Some(l) => out(1000 + l as u64),
                None => out(999),
            }
            cover("rejected");
        }
    }
}

// ---------------------------------------------------------------- lines chosen as they are read

/// A reader of a document whose lines are chosen when they are read: `pre`, then up to `left`
/// lines of any kind, then the end. Lines are chosen as late as possible, so a document is
/// explored no further than loading reads it.
struct Lazy {
    cur: Vec<u8>,
    pos: usize,
    left: usize,
    kinds: &'static [Kind],
    channels: usize,
    /// Lines to close what is open, then a motion section.
    tail: bool,
    depth: usize,
    expect_open: bool,
    done: bool,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Hier,
    Root,
    Joint,
    JointNoName,
    Open,
    Close,
    Offset,
    OffsetShort,
    OffsetBad,
    Chan(usize),
    /// A list with one type twice.
    ChanTwice,
    ChanNone,
    ChanBad,
    ChanAnyCount,
    End,
    EndBad,
    Motion,
    Frames,
    FramesNone,
    Time,
    TimeNone,
    Row(usize),
    RowBad,
    Blank,
    Unknown,
    Odd,
}
use Kind::*;

/// Everything that can stand in the hierarchy.
pub const HIER: &[Kind] = &[
    Joint, Open, Close, Offset, Chan(1), ChanTwice, End, JointNoName, OffsetShort, OffsetBad, ChanNone, ChanBad,
    ChanAnyCount, EndBad, Root, Hier, Motion, Blank, Unknown, Odd, RowBad,
];
/// Only what can be accepted there.
pub const GOOD: &[Kind] = &[Joint, Open, Close, Offset, Chan(1), ChanTwice, End];
/// Everything that can stand behind it.
pub const MOT: &[Kind] = &[
    Motion, Frames, FramesNone, Time, TimeNone, Row(0), Row(1), Row(2), RowBad, Blank, Unknown, Odd, Close, Joint,
];
pub const FIRST: &[Kind] = &[Hier, Root, Joint, Open, Close, Offset, Chan(1), End, Motion, Frames, Time, Row(1), Blank, Odd];

impl Lazy {
    fn line(&mut self, k: Kind) -> Vec<u8> {
        let mut v = vec![];
        match k {
            Hier => v.extend_from_slice(b"HIERARCHY"),
            Root => v.extend_from_slice(b"ROOT r"),
            Joint => v.extend_from_slice(b"JOINT j"),
            JointNoName => v.extend_from_slice(b"JOINT"),
            Open => v.push(b'{'),
            Close => v.push(b'}'),
            Offset => {
                v.extend_from_slice(b"OFFSET ");
                put_f32(f32_finite(), &mut v);
                v.extend_from_slice(b" 1 2");
            }
            OffsetShort => v.extend_from_slice(b"OFFSET 1"),
            OffsetBad => v.extend_from_slice(b"OFFSET a b c"),
            Chan(n) => {
                v.extend_from_slice(b"CHANNELS 1");
                for i in 0..n {
                    v.push(b' ');
                    v.extend_from_slice(NAMES[(i + 3) % 6].as_bytes());
                }
                self.channels += n;
            }
            ChanTwice => {
                v.extend_from_slice(b"CHANNELS 3 Zrotation Xrotation Zrotation");
                self.channels += 3;
            }
            ChanNone => v.extend_from_slice(b"CHANNELS"),
            ChanBad => v.extend_from_slice(b"CHANNELS 1 Xposition Wrotation"),
            ChanAnyCount => {
                v.extend_from_slice(b"CHANNELS ");
                put_usize(u64_() as usize, &mut v);
                v.extend_from_slice(b" Zrotation");
                self.channels += 1;
            }
            End => v.extend_from_slice(b"End Site"),
            EndBad => v.extend_from_slice(b"End"),
            Motion => v.extend_from_slice(b"MOTION"),
            Frames => {
                v.extend_from_slice(b"Frames: ");
                put_usize(u64_() as usize, &mut v);
            }
            FramesNone => v.extend_from_slice(b"Frames:"),
            Time => {
                v.extend_from_slice(b"Frame Time: ");
                put_f64(f64::from_bits(u64_()), &mut v);
            }
            TimeNone => v.extend_from_slice(b"Frame Time:"),
            Row(0) => {
                // a full row
                for i in 0..self.channels {
                    if i > 0 {
                        v.push(b' ');
                    }
                    put_f32(f32_any(), &mut v);
                }
            }
            Row(n) => {
                for i in 0..n {
                    if i > 0 {
                        v.push(b' ');
                    }
                    put_f32(f32_any(), &mut v);
                }
            }
            RowBad => v.extend_from_slice(b"1 x"),
            Blank => v.extend_from_slice(b" \t"),
            Unknown => v.extend_from_slice(b"something else"),
            Odd => v.extend_from_slice(b"\xff\xc2\x85\x0b\x00 :\xe2\x80"),
        }
        v.push(b'\n');
        v
    }

    fn track(&mut self, k: Kind) {
        match k {
            Open => {
                self.depth += 1;
                self.expect_open = false;
            }
            Close => self.depth = self.depth.saturating_sub(1),
            Joint | Root | End => self.expect_open = true,
            _ => {}
        }
    }
}

impl Read for Lazy {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = {
            let c = self.fill_buf()?;
            let n = c.len().min(b.len());
            b[..n].copy_from_slice(&c[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}

impl BufRead for Lazy {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        if self.pos == self.cur.len() && !self.done {
            self.pos = 0;
            if self.left > 0 {
                self.left -= 1;
                let i = choose(self.kinds.len() + 1);
                if i == self.kinds.len() {
                    self.left = 0;
                } else {
                    let k = self.kinds[i];
                    self.cur = self.line(k);
                    self.track(k);
                    return Ok(&self.cur);
                }
            }
            self.done = true;
            self.cur = vec![];
            if self.tail {
                let mut v = vec![];
                if self.expect_open {
                    v.extend_from_slice(b"{\n");
                    self.depth += 1;
                }
                for _ in 0..self.depth {
                    v.extend_from_slice(b"}\n");
                }
                v.extend_from_slice(b"MOTION\nFrames: ");
                let f = choose(3);
                put_usize(f, &mut v);
                v.extend_from_slice(b"\nFrame Time: 0.25\n");
                for _ in 0..f {
                    let r = self.line(Row(0));
                    v.extend_from_slice(&r);
                }
                self.cur = v;
            }
        }
        Ok(&self.cur[self.pos..])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}

fn lazy(pre: &[u8], left: usize, kinds: &'static [Kind]) -> Lazy {
    Lazy {
        cur: pre.to_vec(),
        pos: 0,
        left,
        kinds,
        channels: 0,
        tail: false,
        depth: 0,
        expect_open: false,
        done: false,
    }
}

const LIMIT: u64 = 1 << 16;

/// Any lines from the start.
pub fn first_lines(n: usize, what: What) {
    alloc_limit(LIMIT);
    outcome(from_reader(lazy(b"", n, FIRST)), what);
}

/// Any lines behind the start of a skeleton, closed or not.
pub fn hierarchy_lines_any(n: usize, kinds: &'static [Kind], what: What) {
    const PRE: [&[u8]; 5] = [
        b"HIERARCHY\nROOT r\n{\n",
        b"HIERARCHY\nROOT r\n",
        b"HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 1 Xposition\nJOINT a\n{\nJOINT b\n{\n}\n",
        b"HIERARCHY\nROOT r\n{\nEnd Site\n{\n",
        b"HIERARCHY\nROOT r\n{\nJOINT a\n{\nEnd Site\n{\nOFFSET 1 1 1\n}\n}\n",
    ];
    let p = choose(5);
    let mut l = lazy(PRE[p], n, kinds);
    l.tail = true;
    l.depth = [1, 0, 2, 2, 1][p];
    l.expect_open = p == 1;
    l.channels = (p == 2) as usize;
    alloc_limit(LIMIT);
    outcome(from_reader(l), what);
}

/// Any lines behind a complete skeleton.
pub fn motion_lines_any(n: usize, what: What) {
    const PRE: [(&[u8], usize); 6] = [
        (b"HIERARCHY\nROOT r\n{\nCHANNELS 2 Xposition Yrotation\n}\n", 2),
        (b"HIERARCHY\nROOT r\n{\n}\n", 0),
        (b"HIERARCHY\nROOT r\n{\nCHANNELS 2 Xposition Yrotation\n}\nMOTION\n", 2),
        (b"HIERARCHY\nROOT r\n{\nCHANNELS 2 Xposition Yrotation\n}\nMOTION\nFrames: 1\nFrame Time: 1\n", 2),
        (b"HIERARCHY\nROOT r\n{\nCHANNELS 1 Xposition\n}\nMOTION\nFrames: 2\nFrame Time: 1\n", 1),
        (b"HIERARCHY\nROOT r\n{\n}\nMOTION\nFrames: 18446744073709551615\nFrame Time: 1\n", 0),
    ];
    let (p, c) = PRE[choose(6)];
    let mut l = lazy(p, n, MOT);
    l.channels = c;
    alloc_limit(LIMIT);
    outcome(from_reader(l), what);
}

// ---------------------------------------------------------------- bytes

/// The document for byte windows.
const DOC: &[u8] = b"HIERARCHY\nROOT ab\n{\nOFFSET 1.5 -2 3e1\nCHANNELS 1 Xposition\nJOINT c\n{\nEnd Site\n{\nOFFSET 0 0 1\n}\n}\n}\nMOTION\nFrames: 2\nFrame Time: 0.5\n1.25\n-3\n";

fn all_roads(v: &[u8], what: What) {
    let road = if v.len() < 8 { choose(6) } else { 0 };
    alloc_limit(LIMIT);
    let r = match road {
        0 => from_bytes(v),
        1 => from_reader(v),
        2 => Bvh::try_from(v),
        3 => Bvh::from_bytes(&v.to_vec()),
        4 => Bvh::try_from(bstr::ByteSlice::as_bstr(v)),
        _ => match std::str::from_utf8(v) {
            Ok(s) => {
                cover("text");
                if choose(2) == 0 { bvh_anim::from_str(s) } else { Bvh::try_from(s) }
            }
            Err(_) => return,
        },
    };
    outcome(r, what);
}

/// Any short input.
pub fn bytes(n: usize) {
    let n = choose(n + 1);
    let mut v = vec![];
    for _ in 0..n {
        v.push(byte());
    }
    all_roads(&v, What::Total);
}

/// A file with any `n` bytes replaced, inserted or its end cut off.
pub fn window(n: usize, lo: usize, hi: usize, what: What) {
    let p = lo + choose(hi.min(DOC.len() - n + 1) - lo);
    let mut v = DOC[..p].to_vec();
    for _ in 0..n {
        v.push(byte());
    }
    match choose(2) {
        0 => v.extend_from_slice(&DOC[p + n..]),
        _ => v.extend_from_slice(&DOC[p..]),
    }
    alloc_limit(LIMIT);
    outcome(from_bytes(&v[..]), what);
}
pub const DOC_LEN: usize = 132;

/// A file cut off anywhere, the last bytes any.
pub fn cut(n: usize) {
    let p = choose(DOC.len() + 1);
    let mut v = DOC[..p].to_vec();
    for _ in 0..n {
        v.push(byte());
    }
    alloc_limit(LIMIT);
    outcome(from_bytes(&v[..]), What::Total);
}

/// Numbers with any digits where numbers belong.
pub fn numbers(n: usize) {
    const PRE: [&[u8]; 8] = [b"", b"1e", b"-1e-", b"1844674407370955161", b"0.00000000000000000000000000000", b"99999999999", b"+", b"1."];
    let at = choose(5);
    let pre = PRE[choose(8)];
    let mut t: Vec<u8> = pre.to_vec();
    for _ in 0..n {
        let b = byte();
        assume((b >= b'0') & (b <= b'9'));
        t.push(b);
    }
    let mut v = vec![];
    let put = |v: &mut Vec<u8>, k: usize, d: &[u8]| v.extend_from_slice(if at == k { &t } else { d });
    v.extend_from_slice(b"HIERARCHY\nROOT a\n{\nOFFSET ");
    put(&mut v, 0, b"0");
    v.extend_from_slice(b" 0 0\nCHANNELS ");
    put(&mut v, 1, b"1");
    v.extend_from_slice(b" Xposition\n}\nMOTION\nFrames: ");
    put(&mut v, 2, b"1");
    v.extend_from_slice(b"\nFrame Time: ");
    put(&mut v, 3, b"1");
    v.push(b'\n');
    put(&mut v, 4, b"1");
    v.push(b'\n');
    alloc_limit(LIMIT);
    outcome(from_bytes(&v[..]), What::Total);
}

/// Any numbers where numbers belong, whatever value they have.
pub fn any_numbers() {
    let c = choose(3);
    let f = choose(2);
    let mut v = vec![];
    v.extend_from_slice(b"HIERARCHY\nROOT a\n{\nOFFSET ");
    for _ in 0..3 {
        put_f32(f32_any(), &mut v);
        v.push(b' ');
    }
    v.extend_from_slice(b"\nCHANNELS ");
    put_usize(u64_() as usize, &mut v);
    for k in 0..c {
        v.push(b' ');
        v.extend_from_slice(NAMES[k].as_bytes());
    }
    v.extend_from_slice(b"\n}\nMOTION\nFrames: ");
    put_usize(u64_() as usize, &mut v);
    v.extend_from_slice(b"\nFrame Time: ");
    put_f64(f64::from_bits(u64_()), &mut v);
    v.push(b'\n');
    for _ in 0..c * f {
        put_f32(f32_any(), &mut v);
        v.push(b' ');
    }
    alloc_limit(LIMIT);
    outcome(from_bytes(&v[..]), What::Total);
}

/// Long inputs: many joints, many braces, long lines; memory stays in proportion.
pub fn long() {
    let n = [1usize, 40, 100, 300, 1000, 5000][choose(6)];
    let mut v: Vec<u8> = vec![];
    match choose(10) {
        0 => {
            v.extend_from_slice(b"HIERARCHY\nROOT r\n{\n");
            for _ in 0..n {
                v.extend_from_slice(b"JOINT j\n{\n");
            }
        }
        1 => {
            for _ in 0..n {
                v.extend_from_slice(b"}\n");
            }
        }
        2 => {
            v.extend_from_slice(b"HIERARCHY\nROOT ");
            for _ in 0..n {
                v.push(byte_letter());
            }
            v.extend_from_slice(b"\n{\n}\nMOTION\nFrames: 0\nFrame Time: 0\n");
        }
        3 => {
            v.extend_from_slice(b"HIERARCHY\nROOT r\n{\nCHANNELS 3");
            for i in 0..n {
                v.push(b' ');
                v.extend_from_slice(NAMES[i % 6].as_bytes());
            }
            v.extend_from_slice(b"\n}\nMOTION\nFrames: 1\nFrame Time: 1\n");
            for _ in 0..n {
                v.extend_from_slice(b"1 ");
            }
        }
        4 => {
            v.extend_from_slice(b"HIERARCHY\nROOT r\n{\nCHANNELS 1 Xrotation\n}\nMOTION\nFrames: 1\nFrame Time: 1\n");
            for _ in 0..n {
                v.extend_from_slice(b"1\n\n");
            }
        }
        5 => {
            for _ in 0..n {
                v.push(0x80);
            }
        }
        6 => {
            // long numbers, in each of the places for one
            let w: &[u8] = [&b"9"[..], b"0", b".", b"-", b"e", b"1e"][choose(6)];
            let mut num = |v: &mut Vec<u8>, here: bool| {
                v.push(b'1');
                for _ in 0..if here { n } else { 0 } {
                    v.extend_from_slice(w);
                }
            };
            let at = choose(5);
            v.extend_from_slice(b"HIERARCHY\nROOT r\n{\nOFFSET ");
            num(&mut v, at == 0);
            v.extend_from_slice(b" 0 0\nCHANNELS ");
            num(&mut v, at == 1);
            v.extend_from_slice(b" Xposition\n}\nMOTION\nFrames: ");
            num(&mut v, at == 2);
            v.extend_from_slice(b"\nFrame Time: ");
            num(&mut v, at == 3);
            v.extend_from_slice(b"\n");
            num(&mut v, at == 4);
            v.extend_from_slice(b"\n");
        }
        7 => {
            // as many joints, all closed
            v.extend_from_slice(b"HIERARCHY\nROOT r\n{\n");
            let m = n.min(1000);
            for _ in 0..m {
                v.extend_from_slice(b"JOINT j\n{\nOFFSET 0 0 0\nEnd Site\n{\n}\n");
            }
            for _ in 0..m {
                v.extend_from_slice(b"}\n");
            }
            v.extend_from_slice(b"}\nMOTION\nFrames: 0\nFrame Time: 0\n");
        }
        8 => {
            for _ in 0..n {
                v.extend_from_slice([&b"\n"[..], b" \t", b"\r\n"][n % 3]);
            }
            v.extend_from_slice(b"HIERARCHY");
        }
        _ => {
            // unknown lines, of many words
            v.extend_from_slice(b"HIERARCHY\nROOT r\n{\n");
            for k in 0..n {
                v.extend_from_slice(if k % 7 == 3 { b"word\n" } else { b"word " });
            }
            v.extend_from_slice(b"\n}\n");
        }
    }
    alloc_limit(LIMIT + 64 * v.len() as u64);
    patience(40);
    outcome(from_bytes(&v[..]), What::Total);
}

fn byte_letter() -> u8 {
    b'a' + choose(1) as u8
}
