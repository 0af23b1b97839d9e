//! BVH documents as data: the reference the harnesses compare the library with. Nothing here uses
//! the library except its public types.
use crate::sym::*;
use bvh_anim::{Bvh, ChannelType, Joint};
use std::time::Duration;

pub type V3 = [f32; 3];

/// Channel names in the file format, by number.
pub const NAMES: [&str; 6] = ["Xposition", "Yposition", "Zposition", "Xrotation", "Yrotation", "Zrotation"];
/// The same channels as the library names them.
pub const TYPES: [ChannelType; 6] = [
    ChannelType::PositionX,
    ChannelType::PositionY,
    ChannelType::PositionZ,
    ChannelType::RotationX,
    ChannelType::RotationY,
    ChannelType::RotationZ,
];

#[derive(Clone)]
pub struct J {
    pub name: Vec<u8>,
    pub parent: Option<usize>,
    pub depth: usize,
    pub off: V3,
    pub ch: Vec<usize>,
    pub end: Option<V3>,
    /// The end site is written after this many children.
    pub end_at: usize,
}

#[derive(Clone)]
pub struct Spec {
    pub js: Vec<J>,
    pub frames: usize,
    pub time: Duration,
    pub vals: Vec<f32>,
}

impl J {
    pub fn new(name: &[u8], parent: Option<usize>, depth: usize) -> J {
        J { name: name.to_vec(), parent, depth, off: [0.0; 3], ch: vec![], end: None, end_at: 0 }
    }
}

impl Spec {
    pub fn channels(&self) -> usize {
        let mut n = 0;
        for j in &self.js {
            n += j.ch.len();
        }
        n
    }
    pub fn children(&self, p: usize) -> Vec<usize> {
        let mut v = vec![];
        for (i, j) in self.js.iter().enumerate() {
            if j.parent == Some(p) {
                v.push(i);
            }
        }
        v
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum K {
    Hier,
    Root,
    Joint(usize),
    Open(usize),
    Off(usize),
    Chan(usize),
    End(usize),
    EndOpen(usize),
    EndOff(usize),
    EndClose(usize),
    Close(usize),
    Motion,
    Frames,
    Time,
    Row(usize),
}

/// A line of a document: what it is and its words.
#[derive(Clone)]
pub struct L {
    pub k: K,
    pub depth: usize,
    pub t: Vec<Vec<u8>>,
}

fn w(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}
pub fn num(x: f32) -> Vec<u8> {
    let mut v = vec![];
    put_f32(x, &mut v);
    v
}
pub fn int(x: usize) -> Vec<u8> {
    let mut v = vec![];
    put_usize(x, &mut v);
    v
}
pub fn num64(x: f64) -> Vec<u8> {
    let mut v = vec![];
    put_f64(x, &mut v);
    v
}

fn emit(s: &Spec, i: usize, out: &mut Vec<L>) {
    let j = &s.js[i];
    let d = j.depth;
    let mut line = |k, depth, t| out.push(L { k, depth, t });
    if i == 0 {
        line(K::Root, d, vec![w("ROOT"), j.name.clone()]);
    } else {
        line(K::Joint(i), d, vec![w("JOINT"), j.name.clone()]);
    }
    line(K::Open(i), d, vec![w("{")]);
    line(K::Off(i), d + 1, vec![w("OFFSET"), num(j.off[0]), num(j.off[1]), num(j.off[2])]);
    let mut c = vec![w("CHANNELS"), int(j.ch.len())];
    for k in &j.ch {
        c.push(w(NAMES[*k]));
    }
    line(K::Chan(i), d + 1, c);
    let kids = s.children(i);
    for k in 0..=kids.len() {
        if let Some(e) = &j.end {
            if j.end_at == k || (k == kids.len() && j.end_at > k) {
                out.push(L { k: K::End(i), depth: d + 1, t: vec![w("End"), w("Site")] });
                out.push(L { k: K::EndOpen(i), depth: d + 1, t: vec![w("{")] });
                let t = vec![w("OFFSET"), num(e[0]), num(e[1]), num(e[2])];
                out.push(L { k: K::EndOff(i), depth: d + 2, t });
                out.push(L { k: K::EndClose(i), depth: d + 1, t: vec![w("}")] });
            }
        }
        if k < kids.len() {
            emit(s, kids[k], out);
        }
    }
    out.push(L { k: K::Close(i), depth: d, t: vec![w("}")] });
}

pub fn hierarchy_lines(s: &Spec) -> Vec<L> {
    let mut out = vec![L { k: K::Hier, depth: 0, t: vec![w("HIERARCHY")] }];
    emit(s, 0, &mut out);
    out
}

/// The lines of the document.
pub fn lines(s: &Spec) -> Vec<L> {
    let mut out = hierarchy_lines(s);
    out.push(L { k: K::Motion, depth: 0, t: vec![w("MOTION")] });
    out.push(L { k: K::Frames, depth: 0, t: vec![w("Frames:"), int(s.frames)] });
    out.push(L { k: K::Time, depth: 0, t: vec![w("Frame"), w("Time:"), num64(s.time.as_secs_f64())] });
    let c = s.channels();
    for f in 0..s.frames {
        let t = s.vals[f * c..(f + 1) * c].iter().map(|x| num(*x)).collect();
        out.push(L { k: K::Row(f), depth: 0, t });
    }
    out
}

/// The usual layout: a tab per depth, single blanks, `\n`.
pub fn render(ls: &[L]) -> Vec<u8> {
    let mut v = vec![];
    for l in ls {
        for _ in 0..l.depth {
            v.push(b'\t');
        }
        for (i, t) in l.t.iter().enumerate() {
            if i > 0 {
                v.push(b' ');
            }
            v.extend_from_slice(t);
        }
        v.push(b'\n');
    }
    v
}

pub fn text(s: &Spec) -> Vec<u8> {
    render(&lines(s))
}

pub fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits()
}
fn same3(a: &V3, b: &V3) -> bool {
    same(a[0], b[0]) & same(a[1], b[1]) & same(a[2], b[2])
}

pub fn check_joint(j: &Joint<'_>, s: &Spec, i: usize) {
    let e = &s.js[i];
    check(j.name() == &e.name[..], "joint name as written");
    check(same3(j.offset(), &e.off), "joint offset as written");
    check(j.index() == i, "joint index is its position");
    check(j.parent_index() == e.parent, "parent is the enclosing joint");
    check(j.is_root() == (i == 0) && j.is_child() != (i == 0), "only the first joint is the root");
    check(j.has_end_site() == e.end.is_some(), "end site exactly where written");
    match (j.end_site(), &e.end) {
        (Some(a), Some(b)) => check(same3(a, b), "end site as written"),
        (None, None) => {}
        _ => check(false, "end site exactly where written"),
    }
    let ch = j.channels();
    check(ch.len() == e.ch.len(), "number of channels as written");
    if ch.len() == e.ch.len() {
        for k in 0..ch.len() {
            check(ch[k].channel_type() == TYPES[e.ch[k]], "channel types as written");
        }
    }
}

/// The joints are those of `s`.
pub fn check_skeleton(b: &Bvh, s: &Spec) {
    let mut n = 0;
    for j in b.joints() {
        if n < s.js.len() {
            check_joint(&j, s, n);
        }
        n += 1;
    }
    check(n == s.js.len(), "number of joints as written");
    check(b.num_channels() == s.channels(), "total channel count");
}

/// The motion data is that of `s`.
pub fn check_motion(b: &Bvh, s: &Spec) {
    let c = s.channels();
    check(*b.frame_time() == s.time, "frame time as written");
    check(b.num_channels() == c, "total channel count");
    if c == 0 {
        check(b.frames().len() == 0, "no frames without channels");
        return;
    }
    check(b.frames().len() == s.frames, "number of frames as written");
    let mut n = 0;
    for f in b.frames() {
        let v = f.as_slice();
        check(v.len() == c, "values per frame");
        if n < s.frames && v.len() == c {
            for k in 0..c {
                check(same(v[k], s.vals[n * c + k]), "motion value as written");
            }
        }
        n += 1;
    }
    check(n == s.frames, "number of frames as written");
}

// ------------------------------------------------------------- symbolic documents

pub fn v3() -> V3 {
    [f32_finite(), f32_finite(), f32_finite()]
}

pub fn jname(i: usize) -> Vec<u8> {
    let mut v = vec![b'j'];
    v.push(b'0' + (i / 10) as u8);
    v.push(b'0' + (i % 10) as u8);
    v
}

/// A tree of exactly `n` joints of any shape.
pub fn tree(n: usize) -> Vec<J> {
    let mut js: Vec<J> = vec![J::new(&jname(0), None, 0)];
    for i in 1..n {
        let d = 1 + choose(js[i - 1].depth + 1);
        let mut p = i - 1;
        while js[p].depth >= d {
            p -= 1;
        }
        js.push(J::new(&jname(i), Some(p), d));
    }
    js
}

/// End sites: every subset of the joints; inner ones before, between or after the children.
pub fn ends(js: &mut Vec<J>, pos: bool) {
    for i in 0..js.len() {
        let kids = js.iter().filter(|j| j.parent == Some(i)).count();
        let opts = if pos { kids + 2 } else { 2 };
        let c = choose(opts);
        if c > 0 {
            js[i].end = Some(v3());
            js[i].end_at = c - 1;
        }
    }
}

/// Channel lists: each joint has a number of channels from `counts`, types in a fixed rotation.
pub fn chans(js: &mut Vec<J>, counts: &[usize]) {
    let mut t = 0;
    for j in js.iter_mut() {
        let n = counts[choose(counts.len())];
        for _ in 0..n {
            j.ch.push(t % 6);
            t += 1;
        }
        t += 1;
    }
}

pub fn offsets(js: &mut Vec<J>) {
    for j in js.iter_mut() {
        j.off = v3();
    }
}

pub fn values(n: usize) -> Vec<f32> {
    let mut v = vec![];
    for _ in 0..n {
        v.push(f32_finite());
    }
    v
}

/// Any frame time below 10^6 s that is a whole number of nanoseconds.
pub fn frame_time() -> Duration {
    let s = u32_();
    let n = u32_();
    assume(s < 1_000_000);
    assume(n < 1_000_000_000);
    Duration::new(s as u64, n)
}

/// Bytes of a name: anything but white space.
pub fn name_bytes(n: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..n {
        v.push(byte());
    }
    no_white(&v);
    v
}

/// No white space, of one byte or more.
pub fn no_white(v: &[u8]) {
    let n = v.len();
    for i in 0..n {
        let b = v[i];
        assume(!((b >= 9) & (b <= 13)) & (b != 32));
        if i + 1 < n {
            assume(!((b == 0xc2) & ((v[i + 1] == 0x85) | (v[i + 1] == 0xa0))));
        }
        if i + 2 < n {
            let (c, d) = (v[i + 1], v[i + 2]);
            assume(!((b == 0xe1) & (c == 0x9a) & (d == 0x80)));
            assume(!((b == 0xe3) & (c == 0x80) & (d == 0x80)));
            assume(!((b == 0xe2) & (c == 0x81) & (d == 0x9f)));
            let sp = (d <= 0x8a) | (d == 0xa8) | (d == 0xa9) | (d == 0xaf);
            assume(!((b == 0xe2) & (c == 0x80) & sp));
        }
    }
}

pub fn spec(js: Vec<J>, frames: usize, time: Duration) -> Spec {
    let mut s = Spec { js, frames, time, vals: vec![] };
    s.vals = values(s.channels() * frames);
    s
}

/// Finite numbers that are hard for number formatting and reading, by index.
pub const HARD: [u32; 16] = [
    0x0000_0001, // smallest subnormal
    0x007f_ffff, // largest subnormal
    0x0080_0000, // smallest normal
    0x7f7f_ffff, // largest
    0xff7f_ffff, // smallest
    0x8000_0000, // -0
    0x3dcc_cccd, // 0.1
    0x4b80_0001, // 16777218 (integers beyond 2^24)
    0x3f80_0001, // 1.0000001
    0x3f7f_ffff, // 0.99999994
    0x4cbe_bc20, // 1e8
    0x3586_37bd, // 1e-6
    0xc2f6_e979, // -123.456
    0x15ae_43fe, // 7.038531e-26
    0x5a0e_1bca, // 1e16
    0x0000_0000,
];
pub fn hard() -> f32 {
    f32::from_bits(HARD[choose(HARD.len())])
}

/// The result of loading something that must load.
pub fn loaded(r: Result<Bvh, bvh_anim::errors::LoadError>) -> Bvh {
    match r {
        Ok(b) => b,
        Err(_) => {
            check(false, "a well-formed file loads");
            stop();
            unreachable!()
        }
    }
}

/// Two animations have the same contents, bit for bit.
pub fn check_same(a: &Bvh, b: &Bvh, msg: &str) {
    check(a.num_channels() == b.num_channels(), msg);
    check(a.frame_time() == b.frame_time(), msg);
    let (mut x, mut y) = (a.joints(), b.joints());
    loop {
        match (x.next(), y.next()) {
            (None, None) => break,
            (Some(p), Some(q)) => {
                check(p.name() == q.name(), msg);
                check(p.index() == q.index() && p.parent_index() == q.parent_index(), msg);
                check(same3(p.offset(), q.offset()), msg);
                check(p.channels() == q.channels(), msg);
                match (p.end_site(), q.end_site()) {
                    (Some(e), Some(f)) => check(same3(e, f), msg),
                    (None, None) => {}
                    _ => check(false, msg),
                }
            }
            _ => {
                check(false, msg);
                break;
            }
        }
    }
    let (mut x, mut y) = (a.frames(), b.frames());
    check(x.len() == y.len(), msg);
    loop {
        match (x.next(), y.next()) {
            (None, None) => break,
            (Some(p), Some(q)) => {
                let (p, q) = (p.as_slice(), q.as_slice());
                check(p.len() == q.len(), msg);
                for k in 0..p.len().min(q.len()) {
                    check(same(p[k], q[k]), msg);
                }
            }
            _ => {
                check(false, msg);
                break;
            }
        }
    }
}

/// What holds of any loaded animation: one tree, parents first, subtrees contiguous, channels
/// numbered in order, frames of that length.
pub fn check_tree(b: &Bvh) {
    let mut par: Vec<Option<usize>> = vec![];
    let mut n = 0;
    for j in b.joints() {
        check(j.index() == n, "a joint knows its position");
        let p = j.parent_index();
        check(p.is_none() == (n == 0), "the first joint is the only root");
        check(j.is_root() == (n == 0) && j.is_child() == (n > 0), "the first joint is the only root");
        if let Some(p) = p {
            check(p < n, "parents come before their children");
            if p < n && n > 0 {
                // the joint before this one is in the subtree of this one's parent
                let mut q = Some(n - 1);
                let mut steps = 0;
                while q.is_some() && q != Some(p) && steps <= n {
                    q = par[q.unwrap()];
                    steps += 1;
                }
                check(q == Some(p), "subtrees are contiguous");
            }
        }
        par.push(p);
        n += 1;
        if n > 1000 {
            break;
        }
    }
    check(n > 0, "there is at least one joint");
    check(b.root_joint().map(|j| j.index()) == Some(0), "the root is the first joint");
}

pub fn check_channels(b: &Bvh) {
    let c = b.num_channels();
    let mut k = 0;
    for j in b.joints() {
        for ch in j.channels() {
            check(ch.motion_index() == k, "channels number the values of a frame in order");
            k += 1;
        }
    }
    check(k == c, "the channel count is that of all joints");
    let mut n = 0;
    for f in b.frames() {
        check(f.len() == c, "each frame has a value per channel");
        n += 1;
        for j in b.joints() {
            for ch in j.channels() {
                check(f.get(ch).is_some(), "each channel has a value in each frame");
            }
        }
    }
    check(n == b.frames().len(), "frames can be counted");
}
