//! Large documents, trees, animations and texts: fixed big shapes, any contents in places.
use crate::doc::*;
use crate::edit::{animation, at, check_rest, check_rows, row, same_row};
use crate::sym::*;
use bvh_anim::*;
use std::io::{self, BufRead, BufReader, Read, Write};
use std::time::Duration;

/// A row of arbitrary but fixed numbers.
pub struct Rnd(pub u32);
impl Rnd {
    pub fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
        (self.0 >> 8) as usize % n
    }
}

/// Names of many lengths.
fn name(i: usize) -> Vec<u8> {
    let mut v = format!("j{}", i).into_bytes();
    let pad = if i % 50 == 49 { 290 } else { i * 7 % 61 };
    for k in 0..pad {
        v.push(b'a' + ((i + k) % 26) as u8);
    }
    v
}

fn add(js: &mut Vec<J>, depth: usize) {
    let i = js.len();
    if i == 0 {
        js.push(J::new(&name(0), None, 0));
        return;
    }
    let mut p = i - 1;
    while js[p].depth >= depth {
        p = js[p].parent.unwrap_or(0);
    }
    js.push(J::new(&name(i), Some(p), depth));
}

pub const KINDS: usize = 5;

/// A tree of `n` joints of one of five kinds.
pub fn big(kind: usize, n: usize) -> Vec<J> {
    let mut js = vec![];
    let mut r = Rnd(kind as u32 * 77 + n as u32);
    add(&mut js, 0);
    for i in 1..n {
        let d = js[i - 1].depth;
        let d = match kind {
            // a chain, two joints further up behind it
            0 => match n - i {
                1 => 2,
                2 => n / 2,
                _ => d + 1,
            },
            // all below the root
            1 => 1,
            // two chains
            2 => if i == n / 2 { 1 } else { d + 1 },
            // a spine with a leaf at each vertebra
            3 => if i % 2 == 1 { (i + 1) / 2 } else { d },
            // like a walk up and down
            _ => match r.below(4) {
                0 => 1 + r.below(d + 1),
                1 => d.max(1),
                _ => d + 1,
            },
        };
        add(&mut js, d);
    }
    js
}

/// Channels, offsets and end sites for a big tree; any numbers in places.
fn dress(js: &mut Vec<J>) {
    let n = js.len();
    let mut r = Rnd(n as u32);
    let mut leaf = vec![true; n];
    for i in 1..n {
        if let Some(p) = js[i].parent {
            leaf[p] = false;
        }
    }
    for i in 0..n {
        let c = match i % 9 {
            0 => 6,
            4 => 0,
            7 => 1,
            _ => 3,
        };
        let c = if i == n / 3 { 40 } else { c };
        js[i].ch = (0..c).map(|_| r.below(6)).collect();
        js[i].off = [i as f32 * 0.25, -(r.below(1000) as f32), 1.0];
        if i % 16 == 5 {
            js[i].off[i % 3] = f32_finite();
        }
        if leaf[i] && i % 7 != 3 || i % 23 == 11 {
            js[i].end = Some([0.5, i as f32, -1.0]);
            js[i].end_at = i % 3;
            if i % 16 == 6 {
                js[i].end = Some(v3());
            }
        }
    }
}

fn one_of(v: &[usize]) -> usize {
    v[choose(v.len())]
}

/// A big document with `f` frames.
fn document(sizes: &[usize], f: usize) -> Spec {
    let mut js = big(choose(KINDS), one_of(sizes));
    dress(&mut js);
    let mut s = Spec { js, frames: f, time: Duration::new(0, 33_333_333), vals: vec![] };
    for k in 0..s.channels() * f {
        s.vals.push(if k % 61 == 7 { f32_finite() } else { (k % 1000) as f32 * 0.125 - 3.0 });
    }
    s
}

fn load(s: &Spec) -> Bvh {
    patience(40);
    let t = text(s);
    alloc_limit(1 << 24);
    loaded(from_bytes(&t[..]))
}

// ---------------------------------------------------------------- C02, C04, C05, C17

pub fn skeleton(sizes: &[usize]) {
    let s = document(sizes, 0);
    let b = load(&s);
    check_skeleton(&b, &s);
    cover("loaded");
}

pub fn channels(sizes: &[usize]) {
    let s = document(sizes, 1);
    let b = load(&s);
    check_channels(&b);
    check_motion(&b, &s);
    // through the channels of each joint
    let f = b.frames().next();
    let mut k = 0;
    for j in b.joints() {
        for c in j.channels() {
            if let Some(f) = &f {
                check(same(f[c], s.vals[k]), "a channel's value is the one written for it");
            }
            k += 1;
        }
    }
    cover("loaded");
}

pub fn one_tree(sizes: &[usize]) {
    let s = document(sizes, 0);
    let b = load(&s);
    check_tree(&b);
    for (i, j) in b.joints().enumerate() {
        check(i < s.js.len() && j.parent_index() == s.js[i].parent, "parent is the enclosing joint");
    }
    cover("loaded");
}

pub fn navigate(sizes: &[usize]) {
    let mut s = document(sizes, 0);
    let n = s.js.len();
    // the same name twice, far apart
    let twin = s.js[n / 2].name.clone();
    s.js[n - 1].name = twin;
    let b = load(&s);
    let mut kids: Vec<Vec<usize>> = vec![vec![]; n];
    for i in 1..n {
        if let Some(p) = s.js[i].parent {
            kids[p].push(i);
        }
    }
    let mut i = 0;
    for j in b.joints() {
        if i >= n {
            break;
        }
        check(j.index() == i && j.parent().map(|p| p.index()) == s.js[i].parent, "parent is the enclosing joint");
        let mut k = 0;
        for c in j.children() {
            check(k < kids[i].len() && c.index() == kids[i][k], "children in file order");
            k += 1;
        }
        check(k == kids[i].len(), "all children");
        i += 1;
    }
    check(i == n && b.joints().count() == n, "every joint exactly once");
    let q = one_of(&[0, 1, n / 2 - 1, n / 2, n - 2, n - 1]);
    let first = if q == n - 1 { n / 2 } else { q };
    let mut it = b.joints();
    check(it.find_by_name(&s.js[q].name).map(|j| j.index()) == Some(first), "lookup finds the first joint of that name");
    let again = it.find_by_name(&s.js[q].name).map(|j| j.index());
    let second = if first == n / 2 { Some(n - 1) } else { None };
    check(again == second, "lookup goes on behind the joint found");
    cover("end");
}

// ---------------------------------------------------------------- C03

fn flat(c: usize) -> Vec<J> {
    let mut js = vec![J::new(b"a", None, 0)];
    let mut i = 0;
    while i < c {
        let n = (c - i).min(1 + js.len() * 3 % 7);
        let j = js.len() - 1;
        js[j].ch = (0..n).map(|k| (i + k) % 6).collect();
        i += n;
        if i < c {
            let d = js.len();
            js.push(J::new(&jname(d % 100), Some(d - 1), d));
        }
    }
    js
}

const SHAPES: [(usize, usize); 8] = [(1, 300), (7, 40), (40, 7), (70, 4), (300, 2), (6, 45), (3, 90), (2, 257)];

/// Many frames, or frames of many values; or one value missing or too many.
pub fn motion() {
    let (c, f) = SHAPES[choose(SHAPES.len())];
    let s = spec(flat(c), f, Duration::new(0, 8_333_333));
    let mut ls = lines(&s);
    let extra = choose(3);
    let end = ls.len() - 1;
    let line = end - one_of(&[0, f / 2, f - 1]);
    match extra {
        1 => {
            ls[line].t.pop();
        }
        2 => ls[line].t.push(num(1.0)),
        _ => {}
    }
    let t = render(&ls);
    alloc_limit(1 << 24);
    patience(40);
    match from_bytes(&t[..]) {
        Ok(b) => {
            check(extra == 0, "accepted only with frames x channels values");
            check_motion(&b, &s);
            cover("accepted");
        }
        Err(e) => {
            check(extra != 0, "a file with frames x channels values loads");
            check(e.line().is_none(), "a count mismatch concerns no line");
            cover("rejected");
        }
    }
}

// ---------------------------------------------------------------- C06, C07, C08

pub fn round_trip(sizes: &[usize]) {
    let s = document(sizes, 2);
    let b = load(&s);
    crate::write::round_trip(&b);
}

pub fn round_trip_frames() {
    let (c, f) = SHAPES[choose(SHAPES.len())];
    let s = spec(flat(c), f, Duration::new(0, 8_333_333));
    let b = load(&s);
    crate::write::round_trip(&b);
}

pub fn options(sizes: &[usize]) {
    patience(40);
    let mut s = document(sizes, 2);
    for j in s.js.iter_mut() {
        // the place of an end site among the children is not kept
        j.end_at = 0;
    }
    crate::write::options_on(&s);
}

/// A text of many buffers' length into a sink that takes pieces, asks for retries and may fail.
pub fn sink() {
    struct Sink {
        got: Vec<u8>,
        calls: usize,
        max: usize,
        retry: usize,
        fail: usize,
        failed: bool,
        dirty: bool,
    }
    impl Write for Sink {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.calls += 1;
            if self.failed || self.calls == self.fail {
                self.failed = true;
                return Err(io::Error::from(io::ErrorKind::TimedOut));
            }
            if self.calls % self.retry == 0 {
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            let n = b.len().min(self.max);
            self.got.extend_from_slice(&b[..n]);
            self.dirty = true;
            Ok(n)
        }
        fn flush(&mut self) -> io::Result<()> {
            if self.failed {
                return Err(io::Error::from(io::ErrorKind::TimedOut));
            }
            self.dirty = false;
            Ok(())
        }
    }
    let s = match choose(3) {
        0 => spec(flat(300), 20, Duration::new(0, 5)),
        1 => spec(flat(3), 300, Duration::new(0, 5)),
        _ => {
            let mut js = big(4, 200);
            dress(&mut js);
            Spec { js, frames: 0, time: Duration::new(0, 5), vals: vec![] }
        }
    };
    let b = load(&s);
    let want = b.to_string();
    let mut k = Sink {
        got: vec![],
        calls: 0,
        max: one_of(&[usize::MAX, 1, 255, 256, 4096, 8192, 8193]),
        retry: one_of(&[usize::MAX, 2, 17, 256]),
        fail: one_of(&[usize::MAX, 1, 2, 300, 1000]),
        failed: false,
        dirty: true,
    };
    let r = match choose(2) {
        0 => b.write_to(&mut k),
        _ => write::WriteOptions::new().write(&b, &mut k),
    };
    match r {
        Ok(()) => {
            check(!k.failed, "a failure of the sink is reported");
            check(k.got == want && !k.dirty, "success: the sink has all bytes in order and has been flushed");
            cover("success");
        }
        Err(e) => {
            check(k.failed && e.kind() == io::ErrorKind::TimedOut, "the failure reported is the sink's");
            cover("failure");
        }
    }
}

// ---------------------------------------------------------------- C09, C10

/// A reader that hands out pieces of one size, asks for a retry now and then and may fail.
struct Pieces<'a> {
    data: &'a [u8],
    pos: usize,
    size: usize,
    retry: bool,
    asked: bool,
    fail_at: usize,
}
impl Pieces<'_> {
    fn end(&mut self) -> io::Result<usize> {
        if self.retry && !self.asked {
            self.asked = true;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        if self.pos == self.fail_at {
            return Err(io::Error::from(io::ErrorKind::ConnectionReset));
        }
        let e = (self.pos / self.size + 1).saturating_mul(self.size);
        Ok(e.min(self.data.len()).min(if self.pos < self.fail_at { self.fail_at } else { usize::MAX }))
    }
}
impl Read for Pieces<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = (self.end()? - self.pos).min(b.len());
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Pieces<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let e = self.end()?;
        Ok(&self.data[self.pos..e])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
        self.asked = n == 0;
    }
}

/// Long lines and long files in pieces of many sizes.
pub fn pieces() {
    let s = match choose(3) {
        // a channel list and rows longer than the usual buffer
        0 => {
            let mut js = vec![J::new(b"a", None, 0)];
            js[0].ch = (0..1200).map(|k| k % 6).collect();
            js[0].name = vec![b'n'; 9000];
            spec(js, 2, Duration::new(0, 5))
        }
        1 => spec(flat(3), 300, Duration::new(0, 5)),
        _ => {
            let mut js = big(4, 200);
            dress(&mut js);
            Spec { js, frames: 0, time: Duration::new(0, 5), vals: vec![] }
        }
    };
    let t = text(&s);
    alloc_limit(1 << 24);
    patience(40);
    let size = one_of(&[7, 64, 255, 256, 257, 1000, 4096, 8191, 8192, 8193, 65536]);
    let n = t.len();
    let fail_at = one_of(&[usize::MAX, 0, 1, n / 3, 8192.min(n), n - 1, n]);
    let p = Pieces { data: &t, pos: 0, size, retry: flip(), asked: false, fail_at };
    let r = match choose(3) {
        0 => from_reader(p),
        1 => from_reader(BufReader::with_capacity(size, p)),
        _ => Bvh::from_reader(BufReader::new(p)),
    };
    match r {
        Ok(b) => {
            check(fail_at == usize::MAX, "a failing reader never gives an animation");
            check_skeleton(&b, &s);
            check_motion(&b, &s);
            cover("loaded");
        }
        Err(e) => {
            check(fail_at != usize::MAX, "the same outcome however the bytes arrive");
            check(crate::read::io_kind(&e) == Some(io::ErrorKind::ConnectionReset), "the read failure is reported");
            cover("failed");
        }
    }
}

/// Many blanks and blank lines.
pub fn layout() {
    let mut js = vec![J::new(b"ab", None, 0), J::new(b"c", Some(0), 1)];
    js[0].ch = vec![2, 4];
    js[1].ch = vec![3];
    js[0].off = v3();
    js[1].end = Some(v3());
    let s = spec(js, 2, Duration::new(0, 5));
    let ls = lines(&s);
    let spot = choose(ls.len());
    let n = one_of(&[17, 64, 255, 256, 257, 300, 9000]);
    let b: &[u8] = [&b" "[..], b"\t", b"\r", b" \t"][choose(4)];
    let place = choose(6);
    let mut v = vec![];
    for (i, l) in ls.iter().enumerate() {
        let here = i == spot;
        let mut blanks = |v: &mut Vec<u8>| {
            for _ in 0..n {
                v.extend_from_slice(b);
            }
        };
        if here && place == 0 {
            for k in 0..n {
                if k % 3 == 1 {
                    v.extend_from_slice(b);
                }
                v.push(b'\n');
            }
        }
        if here && place == 1 {
            blanks(&mut v);
        }
        for (k, t) in l.t.iter().enumerate() {
            if k > 0 {
                v.push(b' ');
                if here && (place == 2 && k == 1 || place == 3 && k + 1 == l.t.len()) {
                    blanks(&mut v);
                }
            }
            v.extend_from_slice(t);
        }
        if here && place == 4 {
            blanks(&mut v);
        }
        v.push(b'\n');
    }
    if place == 5 {
        for _ in 0..n {
            v.extend_from_slice(b);
            v.push(b'\n');
        }
    }
    alloc_limit(1 << 20);
    patience(40);
    let a = loaded(from_bytes(&v[..]));
    check_skeleton(&a, &s);
    check_motion(&a, &s);
    cover("loaded");
}

// ---------------------------------------------------------------- C11, C12, C13, C14

const MANY: [(usize, usize); 4] = [(1, 300), (5, 40), (40, 5), (3, 129)];

fn spots(f: usize) -> usize {
    one_of(&[0, 1, f / 2 - 1, f / 2, f - 2, f - 1, f])
}

pub fn insert() {
    let (c, f) = MANY[choose(4)];
    patience(40);
    let (mut b, s, mut m) = animation(c, f);
    let p = spots(f);
    let n = one_of(&[1, 2, 33, 100]);
    let mut new: Vec<Vec<f32>> = vec![];
    for _ in 0..n {
        new.push(row(c));
    }
    let bad = choose(3); // none, the last or one in the middle
    let good = [n, n - 1, n / 2][bad];
    if bad > 0 {
        new[good] = row(if flip() { c + 1 } else { c - 1 });
    }
    {
        let mut cur = at(&mut b, p, f);
        let ok = match choose(2) {
            0 => cur.try_insert_frames(&new).is_ok(),
            _ => {
                let mut ok = true;
                for r in &new {
                    ok = ok && cur.try_insert_frame(&r[..]).is_ok();
                }
                ok
            }
        };
        check(ok == (bad == 0), "several frames are accepted if each has the right length");
        check(cur.index() == p + good, "the position is just after the inserted frames");
        check(cur.len() == f + good, "number of frames after an insertion");
    }
    m.splice(p..p, new[..good].iter().cloned());
    check_rows(&b, &m, "frames after an insertion");
    check_rest(&b, &s);
    cover("inserted");
}

pub fn remove() {
    let (c, f) = MANY[choose(4)];
    patience(40);
    let (mut b, s, mut m) = animation(c, f);
    let p = spots(f);
    let n = one_of(&[1, 2, 30, 400]);
    {
        let mut cur = at(&mut b, p, f);
        for k in 0..n {
            let ok = cur.remove_frame().is_ok();
            check(ok == (p + k < f), "exactly the frame at the position is removed");
            check(cur.index() == p, "removing leaves the position");
            if !ok {
                break;
            }
        }
    }
    m.drain(p..(p + n).min(f));
    check_rows(&b, &m, "exactly the frame at the position is removed");
    check_rest(&b, &s);
    let v = b.extract_frames();
    let mut flat = vec![];
    for r in &m {
        flat.extend_from_slice(r);
    }
    check(same_row(&v, &flat), "the values taken out are those of the frames");
    check(b.frames().len() == 0, "no frames left");
    cover("removed");
}

/// Operations in a fixed order on long animations, with choices in places.
pub fn history() {
    let (c, f) = MANY[choose(4)];
    patience(40);
    let (mut b, s, mut m) = animation(c, f);
    {
        let mut cur = b.frame_cursor();
        let mut i = 0;
        let mut r = Rnd(f as u32 + choose(8) as u32);
        for k in 0..60 {
            let steps = r.below(f);
            match r.below(7) {
                0 => {
                    for _ in 0..steps {
                        cur.move_next();
                    }
                    i = (i + steps).min(m.len());
                }
                1 => {
                    for _ in 0..steps {
                        cur.move_prev();
                    }
                    i = i.saturating_sub(steps);
                }
                2 => {
                    cur.move_last();
                    i = m.len();
                }
                3 => {
                    let n = steps / 3 + 1;
                    let mut new = vec![];
                    for _ in 0..n {
                        new.push(row(c));
                    }
                    check(cur.try_insert_frames(&new).is_ok(), "frames of the right length are inserted");
                    m.splice(i..i, new);
                    i += n;
                }
                4 => {
                    for _ in 0..steps / 2 {
                        let ok = cur.remove_frame().is_ok();
                        check(ok == (i < m.len()), "removing succeeds exactly where there is a frame");
                        if i < m.len() {
                            m.remove(i);
                        }
                    }
                }
                5 => {
                    let x = f32_any();
                    if let Some(mut v) = cur.peek_next_mut() {
                        v[k % c] = x;
                    }
                    if i < m.len() {
                        m[i][k % c] = x;
                    }
                }
                _ => {
                    let x = f32_any();
                    if let Some(mut v) = cur.peek_prev_mut() {
                        v[k % c] = x;
                    }
                    if i > 0 && i - 1 < m.len() {
                        m[i - 1][k % c] = x;
                    }
                }
            }
            crate::edit::look(&cur, &m, i);
        }
    }
    check_rows(&b, &m, "frames as in the list");
    check_rest(&b, &s);
    cover("end");
}

pub fn views() {
    let (c, f) = MANY[choose(4)];
    patience(40);
    let (mut b, s, mut m) = animation(c, f);
    let i = one_of(&[0, 1, f / 2, f - 2, f - 1]);
    let k = one_of(&[0, c / 2, c - 1]);
    // by position, from both ends
    let ro = b.clone();
    check(ro.frames().len() == f, "length is the number of frames to come");
    match choose(3) {
        0 => {
            let mut it = ro.frames();
            let v = it.nth(i);
            check(v.map(|v| same_row(v.as_slice(), &m[i])) == Some(true), "frame by position");
            check(it.len() == f - 1 - i, "length is the number of frames to come");
            let w = it.next_back().map(|v| same_row(v.as_slice(), &m[f - 1]));
            check(w == if i + 1 < f { Some(true) } else { None }, "next frame from the back");
        }
        1 => {
            let mut it = ro.frames();
            let v = it.nth_back(i);
            check(v.map(|v| same_row(v.as_slice(), &m[f - 1 - i])) == Some(true), "frame from the back");
            check(it.len() == f - 1 - i, "length is the number of frames to come");
            let w = it.next().map(|v| same_row(v.as_slice(), &m[0]));
            check(w == if i + 1 < f { Some(true) } else { None }, "next frame from the front");
        }
        _ => {
            let mut n = f;
            for v in ro.frames().rev() {
                n -= 1;
                check(same_row(v.as_slice(), &m[n]), "next frame from the back");
                if n == 0 {
                    break;
                }
            }
            check(n == 0, "frames until the ends meet");
        }
    }
    // one value
    let x = f32_any();
    let mut seen = 0;
    for j in ro.joints() {
        for ch in j.channels() {
            if seen == k {
                let mut it = b.frames_mut();
                let v = if flip() { it.nth(i) } else { it.nth_back(f - 1 - i) };
                match v {
                    Some(mut v) => {
                        let old = v.try_set_motion(ch, x).map(|o| o.to_bits());
                        check(old == Ok(m[i][k].to_bits()), "setting returns the old value");
                    }
                    None => check(false, "frame by position"),
                }
            }
            seen += 1;
        }
    }
    check(seen == c, "every value has a channel");
    m[i][k] = x;
    check_rows(&b, &m, "exactly the addressed value changes");
    check_rest(&b, &s);
    cover("end");
}

// ---------------------------------------------------------------- C15

/// Long byte strings, also with a channel name at either end.
pub fn channel_text() {
    let n = crate::doc::NAMES[choose(6)].as_bytes();
    let k = one_of(&[1, 2, 13, 14, 15, 22, 23, 24, 55, 247, 256, 300, 5000]);
    let pad = vec![[b' ', b'\n', 0, 0xff, b'x'][choose(5)]; k];
    let mut v = vec![];
    match choose(4) {
        0 => {
            v.extend_from_slice(n);
            v.extend_from_slice(&pad);
        }
        1 => {
            v.extend_from_slice(&pad);
            v.extend_from_slice(n);
        }
        2 => {
            v.extend_from_slice(&n[..4]);
            v.extend_from_slice(&pad);
            v.extend_from_slice(&n[4..]);
        }
        _ => {
            for _ in 0..k {
                v.extend_from_slice(n);
            }
            v.push(byte());
        }
    }
    let t = match choose(2) {
        0 => ChannelType::from_bytes(&v),
        _ => std::convert::TryFrom::try_from(&v[..]),
    };
    match t {
        Ok(_) => check(false, "only the six names are accepted"),
        Err(e) => {
            check(e.into_inner() == v, "the error hands back the refused bytes");
            cover("refused");
        }
    }
}

// ---------------------------------------------------------------- C16

/// One fault far down a long file.
pub fn faults() {
    use crate::damage::{expect, Fault};
    let mut js = big(one_of(&[0, 4]), 60);
    dress(&mut js);
    for i in 0..60 {
        if js[i].ch.len() < 2 {
            js[i].ch = vec![1, 2];
        }
        if js[i].ch.len() > 6 {
            js[i].ch.truncate(6);
        }
    }
    let c: usize = js.iter().map(|j| j.ch.len()).sum();
    let f = 3;
    let s = Spec { js, frames: f, time: Duration::new(0, 5), vals: (0..c * f).map(|k| k as f32).collect() };
    let mut ls = lines(&s);
    let top = ls.iter().position(|l| l.k == K::Motion).unwrap_or(0);
    let blank = one_of(&[0, 250, 7000]);
    let find = |ls: &Vec<L>, from: usize, p: &dyn Fn(K) -> bool| {
        let n = (from..ls.len()).find(|i| p(ls[*i].k));
        n.or_else(|| (0..from).rev().find(|i| p(ls[*i].k))).unwrap_or(0)
    };
    patience(40);
    let x = b"1.5x".to_vec();
    let what = choose(9);
    let from = if what < 5 { [0, top / 2, top - 12][choose(3)] } else { 0 };
    let axis = if what < 2 { choose(3) } else { 0 };
    let (spot, fault) = match what {
        0 => {
            let i = find(&ls, from, &|k| matches!(k, K::Off(_)));
            ls[i].t[1 + axis] = x;
            (i, Fault::BadAxis(axis))
        }
        1 => {
            let i = find(&ls, from, &|k| matches!(k, K::Off(_)));
            ls[i].t.truncate(1 + axis);
            (i, Fault::NoAxis(axis))
        }
        2 => {
            let i = find(&ls, from, &|k| matches!(k, K::Chan(_)));
            ls[i].t[1] = x;
            (i, Fault::NumChannels(true))
        }
        3 => {
            let i = find(&ls, from, &|k| matches!(k, K::Chan(_)));
            ls[i].t[3] = x;
            (i, Fault::Channel)
        }
        4 => {
            let i = find(&ls, from, &|k| matches!(k, K::Joint(_)));
            ls[i].t.truncate(1);
            (i, Fault::Name)
        }
        5 => {
            ls[top + 1].t[1] = x;
            (top + 1, Fault::Frames(Some(true)))
        }
        6 => {
            ls[top + 2].t[2] = x;
            (top + 2, Fault::Time(Some(true)))
        }
        7 => {
            let r = choose(3);
            let k = [0, c / 2, c - 1][choose(3)];
            ls[top + 3 + r].t[k] = x;
            (top + 3 + r, Fault::Value(k))
        }
        _ => {
            let r = choose(3);
            ls[top + 3 + r].t.pop();
            (0, Fault::Count(c * f - 1, f))
        }
    };
    // blank lines in front of everything, or in front of the motion section
    let early = flip();
    let mut t = vec![];
    let mut line = spot;
    for (i, l) in ls.iter().enumerate() {
        if i == if early { 0 } else { top } {
            for _ in 0..blank {
                t.push(b'\n');
            }
            if i <= spot {
                line += blank;
            }
        }
        t.extend_from_slice(&render(std::slice::from_ref(l)));
    }
    let no_line = matches!(fault, Fault::Count(..));
    expect(&t, fault, if no_line { 0 } else { line }, line, c);
}

// ---------------------------------------------------------------- C18, C19

#[cfg(feature = "builder")]
pub fn literal() {
    let mut js = big(choose(KINDS), one_of(&[30, 90]));
    dress(&mut js);
    for i in 0..js.len() {
        // literals have end sites at leaves only
        let leaf = !js.iter().any(|j| j.parent == Some(i));
        if !leaf {
            js[i].end = None;
        }
    }
    let mut s = Spec { js, frames: 2, time: Duration::new(0, 5), vals: vec![] };
    s.vals = values(s.channels() * 2);
    crate::build::compare(&s);
}

#[cfg(feature = "builder")]
pub fn literal_frames() {
    let (c, f) = SHAPES[choose(SHAPES.len())];
    let s = spec(flat(c), f, Duration::new(0, 5));
    crate::build::compare(&s);
}

/// Two big animations that differ in one place or not at all.
pub fn equality() {
    let mut js = big(one_of(&[1, 4]), 60);
    dress(&mut js);
    let mut s = Spec { js, frames: 2, time: Duration::new(0, 33_333_333), vals: vec![] };
    s.vals = values(s.channels() * 2);
    let mut t = s.clone();
    let n = s.js.len();
    let what = choose(9);
    let i = if what >= 1 && what <= 4 { one_of(&[0, n / 2, n - 2, n - 1]) } else { 0 };
    let a = if what == 2 { choose(3) } else { 0 };
    let c = s.channels();
    let same_as = match what {
        0 => true,
        1 => {
            let k = t.js[i].name.len() - 1;
            t.js[i].name[k] = b'!';
            false
        }
        2 => {
            t.js[i].off[a] = f32_finite();
            t.js[i].off[a] == s.js[i].off[a]
        }
        3 => {
            t.js[i].end = match t.js[i].end {
                None => Some([1.0; 3]),
                Some(_) => None,
            };
            false
        }
        4 => {
            if t.js[i].ch.is_empty() {
                stop();
            }
            let k = t.js[i].ch.len() - 1;
            t.js[i].ch[k] = (t.js[i].ch[k] + 1) % 6;
            false
        }
        5 => {
            let k = one_of(&[0, c - 1, c, 2 * c - 2, 2 * c - 1]);
            t.vals[k] = f32_finite();
            t.vals[k] == s.vals[k]
        }
        6 => {
            t.frames = 1;
            t.vals.truncate(c);
            false
        }
        7 => {
            t.time = Duration::new(0, 33_333_334);
            false
        }
        _ => {
            // the last joint elsewhere
            let d = if t.js[n - 1].depth == 1 { 2 } else { 1 };
            let mut last = t.js.pop().unwrap();
            let mut p = n - 2;
            while t.js[p].depth >= d {
                p = t.js[p].parent.unwrap_or(0);
            }
            last.depth = d;
            last.parent = Some(p);
            t.js.push(last);
            false
        }
    };
    let (x, y) = (load(&s), load(&t));
    check((x == y) == same_as, "equal exactly when every attribute is equal");
    check((y == x) == same_as && (x != y) == !same_as, "equality is symmetric");
    let z = y.clone();
    check(z == y, "a copy equals its original");
    check_skeleton(&z, &t);
    check_motion(&z, &t);
    cover(if same_as { "equal" } else { "different" });
}
