//! C06, C07, C08: writing.
use crate::doc::*;
use crate::sym::*;
use bvh_anim::write::{IndentStyle, LineTerminator, WriteOptions};
use bvh_anim::*;
use std::io::{self, Write};
use std::time::Duration;

// ---------------------------------------------------------------- C06

/// Write, load, compare; and all roads of writing agree.
pub fn round_trip(b: &Bvh) {
    let t = b.to_string();
    let mut v: Vec<u8> = vec![];
    check(b.write_to(&mut v).is_ok(), "writing to memory succeeds");
    check(v == t, "writing to memory and to a string agree");
    check(WriteOptions::new().write_to_string(b) == t, "default options");
    alloc_limit(1 << 20);
    match from_bytes(&t[..]) {
        Ok(r) => {
            check_same(&r, b, "writing and loading gives the same animation");
            check(r == *b, "writing and loading gives an equal animation");
            cover("round trip");
        }
        Err(_) => check(false, "what was written loads"),
    }
}

/// Every tree, end sites anywhere.
pub fn trees(max: usize, counts: &[usize]) {
    let n = 1 + choose(max);
    let mut js = tree(n);
    ends(&mut js, n <= 3);
    chans(&mut js, counts);
    offsets(&mut js);
    let b = loaded(from_bytes(&text(&spec(js, 0, Duration::new(1, 5)))[..]));
    round_trip(&b);
}

/// Any values and any frame time.
pub fn motion(mc: usize, mf: usize) {
    let c = choose(mc + 1);
    let f = if c == 0 { 0 } else { choose(mf + 1) };
    let mut js = tree(2);
    for k in 0..c {
        js[k % 2].ch.push((k * 5 + 1) % 6);
    }
    offsets(&mut js);
    let b = loaded(from_bytes(&text(&spec(js, f, frame_time()))[..]));
    round_trip(&b);
}

/// Values through the real number writer and reader.
pub fn hard_values(two: bool) {
    let mut js = tree(2);
    js[0].ch = vec![0, 1];
    js[1].end = Some([0.0, 1.0, 2.0]);
    let mut s = Spec { js, frames: 2, time: Duration::new(1, 0), vals: vec![1.0, 2.0, 3.0, 4.0] };
    let x = hard();
    match choose(3) {
        0 => s.js[choose(2)].off[choose(3)] = x,
        1 => s.js[1].end.as_mut().unwrap()[choose(3)] = x,
        _ => s.vals[choose(4)] = x,
    }
    if two {
        s.vals[0] = hard();
    }
    let mut b = loaded(from_bytes(&text(&s)[..]));
    check_skeleton(&b, &s);
    check_motion(&b, &s);
    const NS: [u64; 8] = [0, 1, 33_333_333, 999_999_999, 1_000_000_001, 16_666_667, 123_456_789_123_456, 8_333_333];
    b.set_frame_time(Duration::from_nanos(NS[choose(8)]));
    round_trip(&b);
}

/// Names with any bytes, and long channel lists.
pub fn names(n: usize) {
    let mut js = tree(2);
    let at = choose(2);
    js[at].name = name_bytes(n);
    if flip() {
        js[at].name.extend_from_slice(b"0123456789012345678901234567890");
    }
    js[1 - at].ch = (0..choose(3) * 4).map(|k| k % 6).collect();
    let b = loaded(from_bytes(&text(&spec(js, 0, Duration::new(0, 1)))[..]));
    round_trip(&b);
}

/// After edits.
pub fn edited() {
    let c = 1 + choose(2);
    let f = choose(3);
    let mut js = tree(2);
    for k in 0..c {
        js[k % 2].ch.push(k);
    }
    let mut b = loaded(from_bytes(&text(&spec(js, f, Duration::new(1, 5)))[..]));
    for _ in 0..2 {
        match choose(6) {
            0 => b.set_frame_time(frame_time()),
            1 => {
                let r = values(c);
                let _ = b.frame_cursor().try_insert_frame(&r[..]);
            }
            2 => {
                let r = values(c);
                let _ = b.frame_cursor().move_last().try_insert_frame(&r[..]);
            }
            3 => {
                let _ = b.frame_cursor().remove_frame();
            }
            4 => {
                b.extract_frames();
            }
            _ => {
                for mut v in b.frames_mut() {
                    v[c - 1] = f32_finite();
                }
            }
        }
    }
    round_trip(&b);
    let d = b.clone();
    check(d.to_string() == b.to_string(), "a copy is written alike");
    cover("end");
}

/// Empty animations can be written (though there is nothing to load).
pub fn empty() {
    let b = Bvh::new();
    let t = b.to_string();
    let mut v = vec![];
    check(b.write_to(&mut v).is_ok() && v == t, "an empty animation is written");
    let _ = from_bytes(&t[..]);
    cover("end");
}

// ---------------------------------------------------------------- C07

pub struct Opt {
    o: WriteOptions,
    unit: Vec<u8>,
    eol: &'static [u8],
    off: Option<usize>,
    time: Option<usize>,
    vals: Option<usize>,
}

fn prec() -> Option<usize> {
    [None, Some(0), Some(1), Some(3), Some(6)][choose(5)]
}

/// Any combination of indentation and line ends, with one or all precisions set.
fn options(precs: usize) -> Opt {
    let (ind, unit): (IndentStyle, Vec<u8>) = match choose(6) {
        0 => (IndentStyle::NoIndentation, vec![]),
        1 => (IndentStyle::Tabs, vec![b'\t']),
        2 => (IndentStyle::with_spaces(0), vec![]),
        3 => (IndentStyle::with_spaces(1), vec![b' ']),
        4 => (IndentStyle::with_spaces(4), vec![b' '; 4]),
        _ => (IndentStyle::with_spaces(7), vec![b' '; 7]),
    };
    let (lt, eol): (LineTerminator, &'static [u8]) = match choose(2) {
        0 => (LineTerminator::Unix, b"\n"),
        _ => (LineTerminator::Windows, b"\r\n"),
    };
    let (mut off, mut time, mut vals) = (None, None, None);
    match precs {
        0 => {}
        1 => match choose(3) {
            0 => off = prec(),
            1 => time = prec(),
            _ => vals = prec(),
        },
        _ => {
            off = prec();
            time = prec();
            vals = prec();
        }
    }
    let o = if flip() {
        WriteOptions::new()
            .with_indent(ind)
            .with_line_terminator(lt)
            .with_offset_significant_figures(off)
            .with_frame_time_significant_figures(time)
            .with_motion_values_significant_figures(vals)
    } else {
        let mut o = WriteOptions::default();
        o.motion_values_significant_figures = vals;
        o.line_terminator = lt;
        o.frame_time_significant_figures = time;
        o.indent = ind;
        o.offset_significant_figures = off;
        o
    };
    Opt { o, unit, eol, off, time, vals }
}

fn n32(x: f32, p: Option<usize>) -> Vec<u8> {
    let mut v = vec![];
    match p {
        None => put_f32(x, &mut v),
        Some(p) => put_f32_p(x, p, &mut v),
    }
    v
}
fn n64(x: f64, p: Option<usize>) -> Vec<u8> {
    let mut v = vec![];
    match p {
        None => put_f64(x, &mut v),
        Some(p) => put_f64_p(x, p, &mut v),
    }
    v
}

/// The lines as they must be written: the tokens of the file with the precision asked for.
fn expected(s: &Spec, o: &Opt) -> Vec<L> {
    let mut ls = lines(s);
    for l in ls.iter_mut() {
        match l.k {
            K::Off(i) => {
                for a in 0..3 {
                    l.t[1 + a] = n32(s.js[i].off[a], o.off);
                }
            }
            K::EndOff(i) => {
                for a in 0..3 {
                    l.t[1 + a] = n32(s.js[i].end.unwrap()[a], o.off);
                }
            }
            K::Time => l.t[2] = n64(s.time.as_secs_f64(), o.time),
            K::Row(f) => {
                let c = s.channels();
                for k in 0..c {
                    l.t[k] = n32(s.vals[f * c + k], o.vals);
                }
            }
            _ => {}
        }
    }
    ls
}

fn blank(b: u8) -> bool {
    b == b' ' || b == b'\t'
}

fn check_text(t: &[u8], ls: &[L], o: &Opt) {
    let mut p = 0;
    for l in ls {
        // the leading white space: exactly depth times the unit
        for _ in 0..l.depth {
            let n = o.unit.len();
            check(p + n <= t.len() && t[p..p + n] == o.unit[..], "indentation is depth times the unit");
            p += n;
        }
        check(p < t.len() && !blank(t[p]), "indentation is depth times the unit");
        for (k, w) in l.t.iter().enumerate() {
            let mut gap = 0;
            while p < t.len() && blank(t[p]) {
                p += 1;
                gap += 1;
            }
            check(k == 0 || gap > 0, "words are separated");
            let n = w.len();
            check(p + n <= t.len() && t[p..p + n] == w[..], "the same words in every format");
            p += n;
        }
        while p < t.len() && blank(t[p]) {
            p += 1;
        }
        let n = o.eol.len();
        check(p + n <= t.len() && t[p..p + n] == *o.eol, "each line ends with the terminator asked for");
        p += n;
        if p > t.len() {
            return;
        }
    }
    check(p == t.len(), "nothing else is written");
}

fn written(s: &Spec, o: &Opt) {
    let b = loaded(from_bytes(&text(s)[..]));
    let t = o.o.write_to_string(&b);
    let mut v = vec![];
    check(o.o.write(&b, &mut v).is_ok() && v == t, "writing to memory and to a string agree");
    check_text(&t, &expected(s, o), o);
    // and back
    let r = match from_bytes(&t[..]) {
        Ok(r) => r,
        Err(_) => {
            check(false, "what was written loads");
            return;
        }
    };
    let mut n = 0;
    for j in r.joints() {
        if n < s.js.len() {
            let e = &s.js[n];
            check(j.name() == &e.name[..] && j.parent_index() == e.parent, "the same skeleton");
            check(j.has_end_site() == e.end.is_some(), "the same skeleton");
            check(j.channels().len() == e.ch.len(), "the same skeleton");
            for (k, c) in j.channels().iter().enumerate() {
                check(k < e.ch.len() && c.channel_type() == TYPES[e.ch[k]], "the same skeleton");
            }
            if o.off.is_none() {
                for a in 0..3 {
                    check(same(j.offset()[a], e.off[a]), "equal offsets without a precision");
                    if let (Some(x), Some(y)) = (j.end_site(), &e.end) {
                        check(same(x[a], y[a]), "equal offsets without a precision");
                    }
                }
            }
        }
        n += 1;
    }
    check(n == s.js.len(), "the same skeleton");
    check(r.frames().len() == b.frames().len(), "the same number of frames");
    if o.time.is_none() {
        check(*r.frame_time() == s.time, "equal frame time without a precision");
    }
    if o.vals.is_none() {
        for (x, y) in r.frames().zip(b.frames()) {
            for k in 0..x.len().min(y.len()) {
                check(same(x.as_slice()[k], y.as_slice()[k]), "equal values without a precision");
            }
        }
    }
    cover("written");
}

/// Options on a given animation.
pub fn options_on(s: &Spec) {
    let o = options(0);
    written(s, &o);
}

/// Options on trees of every shape.
pub fn opt_trees(max: usize) {
    let n = 1 + choose(max);
    let mut js = tree(n);
    ends(&mut js, false);
    offsets(&mut js);
    js[0].ch = vec![0, 4];
    let s = spec(js, 0, Duration::new(1, 0));
    let o = options(0);
    written(&s, &o);
}

/// Options and any values.
pub fn opt_values(precs: usize) {
    let mut js = vec![J::new(b"a", None, 0), J::new(b"b", Some(0), 1)];
    js[0].off = v3();
    js[1].off = v3();
    js[1].end = Some(v3());
    js[1].ch = vec![3, 2];
    let s = spec(js, 2, frame_time());
    let o = options(precs);
    written(&s, &o);
}

/// Indentations of many widths, at many depths.
pub fn opt_indents() {
    const W: [usize; 14] = [0, 1, 2, 3, 5, 8, 9, 16, 17, 64, 255, 256, 257, 300];
    let n = W[choose(14)];
    let deep = if n > 20 { 3 } else { [2, 9, 18][choose(3)] };
    let mut js: Vec<J> = vec![];
    for i in 0..deep {
        js.push(J::new(&jname(i), if i == 0 { None } else { Some(i - 1) }, i));
    }
    js.push(J::new(b"s", Some(0), 1));
    js[deep - 1].end = Some([1.0, 2.0, 3.0]);
    js[deep - 1].ch = vec![choose(6)];
    let s = spec(js, choose(2), Duration::new(1, 0));
    let (indent, unit) = match n {
        3 if flip() => (IndentStyle::Tabs, vec![b'\t']),
        _ => (IndentStyle::with_spaces(n), vec![b' '; n]),
    };
    let o = WriteOptions::new().with_line_terminator(LineTerminator::Unix).with_indent(indent);
    written(&s, &Opt { o, unit, eol: b"\n", off: None, time: None, vals: None });
}

/// Precisions on values that are hard to round, through the real number writer.
pub fn opt_hard() {
    let x = hard();
    let mut js = vec![J::new(b"a", None, 0), J::new(b"b", Some(0), 1)];
    js[0].ch = vec![1, 2];
    js[1].end = Some([0.5, 1.5, 2.5]);
    let mut s = Spec { js, frames: 1, time: Duration::new(0, 33_333_333), vals: vec![0.25, 2.5] };
    match choose(3) {
        0 => s.js[1].off[choose(3)] = x,
        1 => s.js[1].end.as_mut().unwrap()[choose(3)] = x,
        _ => s.vals[choose(2)] = x,
    }
    let p = prec();
    let q = prec();
    let r = if flip() { p } else { q };
    let o = WriteOptions::new()
        .with_offset_significant_figures(p)
        .with_frame_time_significant_figures(q)
        .with_motion_values_significant_figures(r)
        .with_line_terminator(LineTerminator::Unix);
    written(&s, &Opt { o, unit: vec![b'\t'], eol: b"\n", off: p, time: q, vals: r });
}

/// The option types themselves.
pub fn opt_types() {
    let n = choose(9);
    let i = IndentStyle::with_spaces(n);
    match &i {
        IndentStyle::NoIndentation => check(n == 0, "no spaces: no indentation"),
        IndentStyle::Tabs => check(false, "spaces are not tabs"),
        IndentStyle::Spaces(k) => check(k.get() == n, "that many spaces"),
    }
    check(IndentStyle::default() == IndentStyle::Tabs, "a tab by default");
    let (u, w) = (LineTerminator::Unix, LineTerminator::Windows);
    check(u.as_str() == "\n" && w.as_str() == "\r\n", "line terminators");
    check(u.as_bytes() == b"\n" && w.as_bytes() == b"\r\n", "line terminators");
    check(u.as_escaped_str() == "\\n" && w.as_escaped_str() == "\\r\\n", "escaped line terminators");
    check(u.as_escaped_bytes() == b"\\n" && w.as_escaped_bytes() == b"\\r\\n", "escaped line terminators");
    check(u.to_string() == "\n" && w.to_string() == "\r\n", "line terminators, displayed");
    check(LineTerminator::native() == LineTerminator::default(), "the native line terminator by default");
    let d = WriteOptions::default();
    check(d == WriteOptions::new(), "default options");
    let a = d.clone().with_indent(i.clone()).with_line_terminator(w);
    check(a.indent == i && a.line_terminator == w, "options set");
    check(a.offset_significant_figures.is_none(), "other options unchanged");
    let k = u64_() as usize;
    let b = a.clone().with_offset_significant_figures(k);
    check(b.offset_significant_figures == Some(k) && b.frame_time_significant_figures.is_none()
        && b.motion_values_significant_figures.is_none() && b.indent == i, "exactly that option set");
    let b = a.clone().with_frame_time_significant_figures(k);
    check(b.frame_time_significant_figures == Some(k) && b.offset_significant_figures.is_none()
        && b.motion_values_significant_figures.is_none() && b.line_terminator == w, "exactly that option set");
    let b = a.clone().with_motion_values_significant_figures(k);
    check(b.motion_values_significant_figures == Some(k) && b.offset_significant_figures.is_none()
        && b.frame_time_significant_figures.is_none() && b.indent == i, "exactly that option set");
    check(format!("{:?}", b).len() > 0, "options can be displayed");
    cover("end");
}

/// Setters in any order, again and again: the last value given to each counts.
pub fn opt_setters(n: usize) {
    let mut o = match choose(3) {
        0 => WriteOptions::new(),
        1 => WriteOptions::default(),
        _ => {
            let mut o = WriteOptions::new();
            o.indent = IndentStyle::with_spaces(3);
            o.line_terminator = LineTerminator::Windows;
            o.offset_significant_figures = Some(9);
            o.frame_time_significant_figures = Some(8);
            o.motion_values_significant_figures = Some(7);
            o
        }
    };
    let mut ind = o.indent.clone();
    let mut lt = o.line_terminator;
    let mut p = [o.offset_significant_figures, o.frame_time_significant_figures, o.motion_values_significant_figures];
    for _ in 0..n {
        match choose(5) {
            0 => {
                ind = match choose(3) {
                    0 => IndentStyle::NoIndentation,
                    1 => IndentStyle::Tabs,
                    _ => IndentStyle::with_spaces(2),
                };
                o = o.with_indent(ind.clone());
            }
            1 => {
                lt = [LineTerminator::Unix, LineTerminator::Windows][choose(2)];
                o = o.with_line_terminator(lt);
            }
            k => {
                let v = match choose(4) {
                    0 => None,
                    1 => Some(0),
                    2 => Some(2),
                    _ => Some(u64_() as usize),
                };
                p[k - 2] = v;
                let by_value = v.is_some() && flip();
                o = match (k, by_value) {
                    (2, false) => o.with_offset_significant_figures(v),
                    (2, true) => o.with_offset_significant_figures(v.unwrap()),
                    (3, false) => o.with_frame_time_significant_figures(v),
                    (3, true) => o.with_frame_time_significant_figures(v.unwrap()),
                    (_, false) => o.with_motion_values_significant_figures(v),
                    (_, true) => o.with_motion_values_significant_figures(v.unwrap()),
                };
            }
        }
    }
    check(o.indent == ind, "the indentation last set");
    check(o.line_terminator == lt, "the line terminator last set");
    check(o.offset_significant_figures == p[0], "the offset precision last set");
    check(o.frame_time_significant_figures == p[1], "the frame time precision last set");
    check(o.motion_values_significant_figures == p[2], "the motion precision last set");
    check(o.clone() == o, "a clone is the same");
    cover("end");
}

// ---------------------------------------------------------------- C08

const KINDS: [io::ErrorKind; 3] = [io::ErrorKind::Other, io::ErrorKind::WouldBlock, io::ErrorKind::BrokenPipe];

/// Every kind of failure there is, except the request to try again.
pub const ALL_KINDS: [io::ErrorKind; 24] = [
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AddrNotAvailable,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::StorageFull,
    io::ErrorKind::FileTooLarge,
    io::ErrorKind::ReadOnlyFilesystem,
    io::ErrorKind::NetworkDown,
    io::ErrorKind::ResourceBusy,
    io::ErrorKind::Unsupported,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Other,
];

/// An error of that kind, made in one of the ways errors are made.
pub fn failure(k: io::ErrorKind, how: usize) -> io::Error {
    match how {
        0 => io::Error::from(k),
        _ => io::Error::new(k, "refused"),
    }
}

struct Sink {
    got: Vec<u8>,
    /// Bytes were accepted since the last flush.
    dirty: bool,
    /// Requests that are not simply granted.
    left: usize,
    failed: Option<io::ErrorKind>,
    zero: bool,
    /// At most this many bytes are accepted at once.
    max: usize,
    flushes: usize,
}

impl Sink {
    fn new(left: usize) -> Sink {
        Sink { got: vec![], dirty: true, left, failed: None, zero: false, max: usize::MAX, flushes: 0 }
    }
    fn take(&mut self, b: &[u8], n: usize) -> io::Result<usize> {
        let n = n.min(b.len()).min(self.max);
        self.got.extend_from_slice(&b[..n]);
        self.dirty = true;
        Ok(n)
    }
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.failed.is_some() || self.zero {
            // stays broken
            return match self.failed {
                Some(k) => Err(io::Error::from(k)),
                None => Ok(0),
            };
        }
        if self.left == 0 {
            return self.take(b, b.len());
        }
        match choose(7) {
            0 => self.take(b, b.len()),
            1 => {
                self.left -= 1;
                self.take(b, 1)
            }
            2 => {
                self.left -= 1;
                self.take(b, b.len() / 2 + 1)
            }
            3 => {
                self.left -= 1;
                let n = b.len() - 1;
                self.take(b, if n == 0 { 1 } else { n })
            }
            4 => {
                self.left -= 1;
                Err(io::Error::from(io::ErrorKind::Interrupted))
            }
            5 => {
                self.left = 0;
                self.zero = true;
                Ok(0)
            }
            _ => {
                self.left = 0;
                let k = KINDS[choose(3)];
                self.failed = Some(k);
                Err(io::Error::from(k))
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        if let Some(k) = self.failed {
            return Err(io::Error::from(k));
        }
        if self.left > 0 && choose(2) == 1 {
            let k = KINDS[choose(3)];
            self.failed = Some(k);
            return Err(io::Error::from(k));
        }
        self.dirty = false;
        Ok(())
    }
}

fn judge(sink: &Sink, r: io::Result<()>, want: &[u8]) {
    match r {
        Ok(()) => {
            check(sink.failed.is_none() && !sink.zero, "a failure of the sink is reported");
            check(sink.got == want, "success: the sink has all bytes in order");
            check(sink.flushes > 0 && !sink.dirty, "success: the sink has been flushed");
            cover("success");
        }
        Err(e) => {
            check(sink.failed.is_some() || sink.zero, "short and interrupted writes are not failures");
            if let Some(k) = sink.failed {
                check(e.kind() == k, "the failure reported is the sink's");
                cover("failure");
            } else {
                cover("stopped");
            }
        }
    }
}

fn subject(c: usize, f: usize) -> (Bvh, Opt) {
    subject_of(c, f, false)
}

/// The same, with numbers that are the same on every path, so that the text has one length.
fn subject_of(c: usize, f: usize, fixed: bool) -> (Bvh, Opt) {
    let mut js = vec![J::new(b"a", None, 0), J::new(b"b", Some(0), 1)];
    js[1].end = Some([1.0, 2.0, 3.0]);
    for k in 0..c {
        js[k % 2].ch.push(k);
    }
    let s = match fixed {
        true => Spec { js, frames: f, time: Duration::new(0, 5), vals: (0..c * f).map(|i| 1.5 + i as f32).collect() },
        false => spec(js, f, Duration::new(0, 5)),
    };
    let b = loaded(from_bytes(&text(&s)[..]));
    let o = Opt {
        o: match choose(2) {
            0 => WriteOptions::new(),
            _ => WriteOptions::new().with_indent(IndentStyle::NoIndentation).with_line_terminator(LineTerminator::Windows),
        },
        unit: vec![],
        eol: b"",
        off: None,
        time: None,
        vals: None,
    };
    (b, o)
}

/// Up to `n` requests of the sink go another way than granting all.
pub fn sink(n: usize) {
    let (b, o) = subject(2, 2);
    let want = o.o.write_to_string(&b);
    let mut s = Sink::new(n);
    let r = o.o.write(&b, &mut s);
    judge(&s, r, &want);
}

/// The default road.
pub fn sink_default(n: usize) {
    let (b, _) = subject(1, 1);
    let want = b.to_string();
    let mut s = Sink::new(n);
    let r = match choose(2) {
        0 => b.write_to(&mut s),
        _ => {
            let mut d: &mut Sink = &mut s;
            b.write_to(&mut d)
        }
    };
    judge(&s, r, &want);
}

/// Every request is granted a few bytes only.
pub fn trickle() {
    let (b, o) = subject(2, 1);
    let want = o.o.write_to_string(&b);
    let mut s = Sink::new(choose(2));
    s.max = 1 + choose(5);
    let r = o.o.write(&b, &mut s);
    judge(&s, r, &want);
}

/// One failure of any kind at any request of the sink.
pub fn kinds() {
    struct Fails {
        got: Vec<u8>,
        calls: usize,
        at: usize,
        flush: bool,
        kind: io::ErrorKind,
        how: usize,
        hit: bool,
        dirty: bool,
    }
    impl Write for Fails {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            if !self.flush && self.calls == self.at {
                self.hit = true;
                return Err(failure(self.kind, self.how));
            }
            self.calls += 1;
            self.got.extend_from_slice(b);
            self.dirty = true;
            Ok(b.len())
        }
        fn flush(&mut self) -> io::Result<()> {
            if self.flush {
                self.hit = true;
                return Err(failure(self.kind, self.how));
            }
            self.dirty = false;
            Ok(())
        }
    }
    let (b, o) = subject_of(1, 1, true);
    let want = o.o.write_to_string(&b);
    let flush = flip();
    let mut s = Fails {
        got: vec![],
        calls: 0,
        at: if flush { 0 } else { [0, 1, 4, 8, 1000][choose(5)] },
        flush,
        kind: ALL_KINDS[choose(24)],
        how: choose(2),
        hit: false,
        dirty: true,
    };
    let r = o.o.write(&b, &mut s);
    match r {
        Ok(()) => {
            check(!s.hit, "a failure of the sink is reported");
            check(s.got == want && !s.dirty, "success: the sink has all bytes in order");
            cover("success");
        }
        Err(e) => {
            check(s.hit && e.kind() == s.kind, "the failure reported is the sink's");
            check(!e.to_string().is_empty(), "the failure can be displayed");
            cover("failure");
        }
    }
}

/// Flushing is interrupted: flushed again, or reported.
pub fn flush_again() {
    struct Busy {
        got: Vec<u8>,
        dirty: bool,
        busy: usize,
    }
    impl Write for Busy {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.got.extend_from_slice(b);
            self.dirty = true;
            Ok(b.len())
        }
        fn flush(&mut self) -> io::Result<()> {
            if self.busy > 0 {
                self.busy -= 1;
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            self.dirty = false;
            Ok(())
        }
    }
    let (b, o) = subject(1, 1);
    let want = o.o.write_to_string(&b);
    let mut s = Busy { got: vec![], dirty: true, busy: choose(3) };
    let calm = s.busy == 0;
    match o.o.write(&b, &mut s) {
        Ok(()) => {
            check(s.got == want && !s.dirty, "success: the sink has all bytes in order and has been flushed");
            cover("success");
        }
        Err(e) => {
            check(!calm && e.kind() == io::ErrorKind::Interrupted, "the failure reported is the sink's");
            cover("failure");
        }
    }
}

/// A sink with room for so many bytes only, behind a standard buffer or not.
pub fn full() {
    struct Room {
        got: Vec<u8>,
        room: usize,
    }
    impl Write for Room {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            let n = b.len().min(self.room - self.got.len());
            self.got.extend_from_slice(&b[..n]);
            Ok(n)
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    let (b, o) = subject_of(1, 1, true);
    let want = o.o.write_to_string(&b);
    let room = choose(want.len() + 2);
    let mut s = Room { got: vec![], room };
    let ok = match choose(3) {
        0 => o.o.write(&b, &mut s).is_ok(),
        1 => {
            let mut w = io::BufWriter::with_capacity(32, &mut s);
            o.o.write(&b, &mut w).is_ok()
        }
        _ => {
            let mut buf = vec![0u8; room];
            let mut w = &mut buf[..];
            let ok = o.o.write(&b, &mut w).is_ok();
            s.got = buf;
            ok
        }
    };
    check(ok == (room >= want.len()), "a full sink is reported, and only a full one");
    if ok {
        check(s.got[..want.len()] == want[..], "success: the sink has all bytes in order");
        cover("success");
    } else {
        cover("stopped");
    }
}
