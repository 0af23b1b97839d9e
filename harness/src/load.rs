//! C02, C03, C17: loading well-formed files.
use crate::doc::*;
use crate::sym::*;
use bvh_anim::*;
use std::time::Duration;

fn secs(n: u32) -> Duration {
    Duration::new(0, n)
}

// ---------------------------------------------------------------- C02

fn load_skeleton(s: &Spec) {
    let t = text(s);
    alloc_limit(1 << 20);
    let b = loaded(from_bytes(&t[..]));
    check_skeleton(&b, s);
    cover("loaded");
}

/// Every tree of up to `max` joints with end sites anywhere.
pub fn shape(max: usize, counts: &[usize]) {
    let n = 1 + choose(max);
    let mut js = tree(n);
    ends(&mut js, n <= 3);
    chans(&mut js, counts);
    offsets(&mut js);
    load_skeleton(&spec(js, 0, secs(500_000_000)));
}

/// Channel lists of up to 9 channels in any joint of a chain, any type at any place.
pub fn chan_lists() {
    let mut js = tree(3);
    offsets(&mut js);
    let at = choose(3);
    let n = choose(10);
    let base = choose(6);
    for k in 0..n {
        js[at].ch.push((base + k) % 6);
    }
    if n > 0 {
        let p = choose(n);
        js[at].ch[p] = choose(6);
    }
    let o = choose(3);
    if o != at {
        js[o].ch = vec![3, 1, 5];
    }
    load_skeleton(&spec(js, 0, secs(500_000_000)));
}

/// Names with any bytes, short and long.
pub fn names(n: usize) {
    let mut js = tree(2);
    let at = choose(2);
    let mut v = vec![];
    let pre = [0, 1, 22, 40][choose(4)];
    for _ in 0..pre {
        v.push(b'n');
    }
    v.extend_from_slice(&name_bytes(n));
    if choose(2) == 1 {
        v.extend_from_slice(b"z");
    }
    js[at].name = v;
    js[1].ch = vec![2];
    js[1].end = Some([1.0, 2.0, 3.0]);
    load_skeleton(&spec(js, 0, secs(500_000_000)));
}

/// Names that read like something else in the file.
pub fn keyword_names() {
    const W: [&str; 12] = [
        "ROOT", "JOINT", "End", "Site", "OFFSET", "CHANNELS", "{", "}", "MOTION", "a:b", "12.5", "HIERARCHY",
    ];
    let mut js = tree(3);
    let a = choose(3);
    js[a].name = W[choose(12)].as_bytes().to_vec();
    let b = choose(3);
    js[b].name = W[choose(12)].as_bytes().to_vec();
    js[2].end = Some(v3());
    load_skeleton(&spec(js, 0, secs(500_000_000)));
}

/// A chain of up to `max` joints, closed to any level, then a sibling; then again.
pub fn deep(max: usize) {
    let n = 2 + choose(max - 1);
    let mut js: Vec<J> = vec![];
    for i in 0..n {
        js.push(J::new(&jname(i), if i == 0 { None } else { Some(i - 1) }, i));
    }
    if flip() {
        js[n - 1].end = Some(v3());
    }
    for r in 0..2 {
        let last = js.len() - 1;
        let d = 1 + choose(js[last].depth + 1);
        let mut p = last;
        while js[p].depth >= d {
            p -= 1;
        }
        let i = js.len();
        let mut j = J::new(&jname(i), Some(p), d);
        if r == 0 && flip() {
            j.end = Some(v3());
        }
        j.ch = vec![choose(2), 4];
        js.push(j);
    }
    for j in js.iter_mut() {
        j.off[1] = f32_finite();
    }
    load_skeleton(&spec(js, 0, secs(500_000_000)));
}

/// `n` joints below one joint.
pub fn wide(n: usize) {
    let mut js = vec![J::new(b"r", None, 0), J::new(b"m", Some(0), 1)];
    let k = 2 + choose(n - 1);
    let mark = choose(k);
    for i in 0..k {
        let mut j = J::new(&jname(i), Some(1), 2);
        if i == mark {
            j.end = Some(v3());
            j.ch = vec![choose(6)];
            j.off = v3();
        }
        js.push(j);
    }
    load_skeleton(&spec(js, 0, secs(500_000_000)));
}

// ---------------------------------------------------------------- C03

fn two(c: usize) -> Vec<J> {
    let mut js = tree(2);
    let a = c / 2 + c % 2;
    for k in 0..c {
        let j = if k < a { 0 } else { 1 };
        js[j].ch.push(k % 6);
    }
    js
}

/// Any matrix of up to `mc` channels and `mf` frames.
pub fn motion(mc: usize, mf: usize) {
    let c = choose(mc + 1);
    let f = choose(mf + 1);
    let s = spec(two(c), f, frame_time());
    let t = text(&s);
    alloc_limit(1 << 20);
    let b = loaded(from_bytes(&t[..]));
    check_motion(&b, &s);
    cover("loaded");
    if c > 0 && f > 1 {
        cover("several frames");
    }
}

/// Any declared frame count: accepted exactly if frames x channels values follow.
pub fn count(mc: usize, mf: usize) {
    let c = choose(mc + 1);
    let f = choose(mf + 1);
    let extra = choose(3); // no difference, one value missing, one too many
    let declared = u64_() as usize;
    let mut s = spec(two(c), f, secs(250_000_000));
    let mut ls = lines(&s);
    let mut have = c * f;
    match extra {
        1 => {
            assume(have > 0);
            let at = ls.len() - 1 - choose(f);
            ls[at].t.pop();
            have -= 1;
        }
        2 => {
            let x = f32_finite();
            if f > 0 {
                let at = ls.len() - 1 - choose(f);
                ls[at].t.push(num(x));
            } else {
                ls.push(L { k: K::Row(0), depth: 0, t: vec![num(x)] });
            }
            have += 1;
        }
        _ => {}
    }
    for l in ls.iter_mut() {
        if l.k == K::Frames {
            l.t[1] = int(declared);
        }
    }
    let t = render(&ls);
    alloc_limit(1 << 16);
    let r = from_bytes(&t[..]);
    let fits = match declared.checked_mul(c) {
        Some(n) => n == have,
        None => false,
    };
    match r {
        Ok(b) => {
            cover("accepted");
            check(fits, "accepted only with frames x channels values");
            if extra == 0 && c > 0 {
                s.frames = f;
                check_motion(&b, &s);
            }
        }
        Err(e) => {
            cover("rejected");
            check(!fits, "a file with frames x channels values loads");
            check(e.line().is_none(), "a count mismatch concerns no line");
        }
    }
}

/// Values that are hard to read, through the real number reader.
pub fn hard_values() {
    let mut s = spec(two(3), 2, secs(1));
    for v in s.vals.iter_mut() {
        *v = 1.5;
    }
    s.vals[choose(6)] = hard();
    s.js[0].off[choose(3)] = hard();
    let t = text(&s);
    let b = loaded(from_bytes(&t[..]));
    check_skeleton(&b, &s);
    check_motion(&b, &s);
    cover("loaded");
}

/// Written forms of a number and what they mean.
pub const FORMS: [(&str, f32); 24] = [
    ("1", 1.0),
    ("-1", -1.0),
    ("+1", 1.0),
    ("1.", 1.0),
    ("01.50", 1.5),
    ("1e2", 100.0),
    ("1.5E2", 150.0),
    ("-2.5e-1", -0.25),
    ("0.000001", 1e-6),
    ("1e-7", 1e-7),
    ("123456.789", 123456.789),
    ("-0", -0.0),
    ("16777217", 16777216.0),
    ("16777219", 16777220.0),
    ("0.1", 0.1),
    ("3.4028235e38", f32::MAX),
    ("1e-45", 1e-45),
    ("33.333333333333333333333333333333", 33.333333333333333),
    // just off the middle between two values: rounding twice goes wrong
    ("1.00000005960464477539062500000001", f32::from_bits(0x3f80_0001)),
    ("1.00000017881393432617187499999999", f32::from_bits(0x3f80_0001)),
    ("1.000000059604644775390625", 1.0),
    ("-16777217.000000000000001", -16777218.0),
    ("8388610.4999999999999999", 8388610.0),
    ("0.10000000149011612", 0.1),
];
pub fn forms() {
    let (txt, val) = FORMS[choose(FORMS.len())];
    let mut s = spec(two(2), 2, secs(125_000_000));
    let at = choose(7);
    let mut ls = lines(&s);
    for l in ls.iter_mut() {
        match l.k {
            K::Row(f) => {
                for k in 0..2 {
                    if f * 2 + k == at {
                        l.t[k] = txt.as_bytes().to_vec();
                        s.vals[at] = val;
                    }
                }
            }
            K::Off(0) if at >= 4 => {
                l.t[1 + at - 4] = txt.as_bytes().to_vec();
                s.js[0].off[at - 4] = val;
            }
            _ => {}
        }
    }
    let t = render(&ls);
    let b = loaded(from_bytes(&t[..]));
    check_skeleton(&b, &s);
    check_motion(&b, &s);
    cover("loaded");
}

/// Frame times in seconds as written, in nanoseconds.
pub const TIMES: [(&str, u64); 12] = [
    ("0", 0),
    ("1", 1_000_000_000),
    ("0.033333333", 33_333_333),
    ("0.0333333", 33_333_300),
    (".008333", 8_333_000),
    ("1e-3", 1_000_000),
    ("0.0166667", 16_666_700),
    ("2.5", 2_500_000_000),
    ("1000000.5", 1_000_000_500_000_000),
    ("1e-9", 1),
    ("0.041666666666666664", 41_666_667),
    ("3600", 3_600_000_000_000),
];
pub fn times() {
    let (txt, ns) = TIMES[choose(TIMES.len())];
    let mut s = spec(two(1), 1, secs(0));
    s.time = Duration::from_nanos(ns);
    let mut ls = lines(&s);
    let glued = flip();
    for l in ls.iter_mut() {
        if l.k == K::Time {
            l.t[2] = txt.as_bytes().to_vec();
        }
        if l.k == K::Frames && glued {
            l.t = vec![b"Frames:1".to_vec()];
        }
    }
    let b = loaded(from_bytes(&render(&ls)[..]));
    check_motion(&b, &s);
    cover("loaded");
}

// ---------------------------------------------------------------- C17

/// Parents, children, iteration and lookup in every tree of up to `max` joints.
pub fn navigate(max: usize) {
    let n = 1 + choose(max);
    let mut js = tree(n);
    if n > 1 {
        // two joints may share a name
        let a = choose(n);
        let b = choose(n);
        js[b].name = js[a].name.clone();
    }
    let s = spec(js, 0, secs(1));
    let mut b = loaded(from_bytes(&text(&s)[..]));
    let r = b.root_joint();
    check(r.map(|j| j.index()) == Some(0), "the root is the first joint");
    let mut i = 0;
    for j in b.joints() {
        check(i < n && j.index() == i, "joints in file order");
        if i >= n {
            break;
        }
        check(j.name() == &s.js[i].name[..], "joints in file order");
        check(j.parent().map(|p| p.index()) == s.js[i].parent, "parent is the enclosing joint");
        check(j.parent_index() == s.js[i].parent, "parent is the enclosing joint");
        if let Some(p) = j.parent() {
            check(p.name() == &s.js[p.index()].name[..], "parent is the enclosing joint");
        }
        let kids = s.children(i);
        let mut k = 0;
        for c in j.children() {
            check(k < kids.len() && c.index() == kids[k], "children in file order");
            if k >= kids.len() {
                break;
            }
            check(c.name() == &s.js[kids[k]].name[..], "children in file order");
            check(c.parent_index() == Some(i), "a child's parent");
            k += 1;
        }
        check(k == kids.len(), "all children");
        i += 1;
    }
    check(i == n, "every joint exactly once");
    check(b.joints_mut().take(n + 1).count() == n, "every joint exactly once, mutably");
    // lookup
    let q = choose(n + 1);
    let want: Vec<u8> = if q == n { b"nobody".to_vec() } else { s.js[q].name.clone() };
    let skip = choose(n + 1);
    let mut it = b.joints();
    for _ in 0..skip {
        it.next();
    }
    let mut exp = None;
    for i in (skip..n).rev() {
        if s.js[i].name == want {
            exp = Some(i);
        }
    }
    let got = it.find_by_name(&want).map(|j| j.index());
    check(got == exp, "lookup finds the first remaining joint of that name");
    let after = it.next().map(|j| j.index());
    let exp_after = match exp {
        Some(i) if i + 1 < n => Some(i + 1),
        _ => None,
    };
    check(after == exp_after, "iteration goes on behind the joint found");
    cover("end");
    if exp.is_some() {
        cover("found");
    } else {
        cover("not found");
    }
}

/// Lookup with any name bytes.
pub fn lookup_bytes() {
    let mut js = tree(3);
    js[1].name = name_bytes(2);
    js[2].name = b"ab".to_vec();
    let want = vec![byte(), byte()];
    let s = spec(js, 0, secs(1));
    let b = loaded(from_bytes(&text(&s)[..]));
    let got = b.joints().find_by_name(&want[..]).map(|j| j.index());
    let exp = if s.js[1].name == want {
        Some(1)
    } else if &want[..] == b"ab" {
        Some(2)
    } else {
        None
    };
    check(got == exp, "lookup by name compares all bytes");
    cover("end");
}
