//! C16: a well-formed file with one fault.
use crate::doc::*;
use crate::sym::*;
use bvh_anim::errors::{LoadError, LoadErrorKind, LoadJointsError as JE, LoadMotionError as ME};
use bvh_anim::*;
use std::error::Error;
use std::time::Duration;

/// The fault an error must name.
#[derive(Clone, Copy, PartialEq)]
pub enum Fault {
    /// Any fault at or after the line.
    Any,
    Root,
    Name,
    Keyword,
    ChannelsHere,
    NumChannels(bool),
    Channel,
    OffsetHere,
    BadAxis(usize),
    NoAxis(usize),
    Motion,
    Frames(Option<bool>),
    Time(Option<bool>),
    Value(usize),
    /// values found, frames declared
    Count(usize, usize),
    /// The hierarchy is left open: its end is missing, or a later line does not fit.
    Open,
}

fn axis(a: Axis) -> usize {
    match a {
        Axis::X => 0,
        Axis::Y => 1,
        Axis::Z => 2,
    }
}

pub fn displays(e: &LoadError) {
    check(!e.to_string().is_empty(), "every error can be displayed");
    let mut n = 0;
    let mut s: Option<&(dyn Error + 'static)> = e.source();
    while let Some(x) = s {
        check(!x.to_string().is_empty(), "every error can be displayed");
        s = x.source();
        n += 1;
    }
    check(n > 0 && n < 5, "every error can be displayed");
}

/// Loading `t` must fail with this fault at one of the lines `from..=to`.
pub fn expect(t: &[u8], f: Fault, from: usize, to: usize, channels: usize) {
    alloc_limit(1 << 20);
    let e = match from_bytes(t) {
        Ok(_) => {
            check(false, "a damaged file is rejected");
            return;
        }
        Err(e) => e,
    };
    displays(&e);
    let kind = "the error names the kind of fault";
    let line = "the error names the line of the fault";
    match e.line() {
        Some(l) => {
            check(!matches!(f, Fault::Root | Fault::Count(..)), line);
            check(from <= l && l <= to, line);
        }
        None => check(matches!(f, Fault::Root | Fault::Count(..) | Fault::Open | Fault::Any), line),
    }
    match (f, e.kind()) {
        (Fault::Any, _) => {}
        (Fault::Open, LoadErrorKind::Joints(j)) => {
            check(matches!(j, JE::MissingRoot | JE::UnexpectedKeyword { .. } | JE::UnexpectedChannelsSection { .. }), kind)
        }
        (Fault::Root, LoadErrorKind::Joints(j)) => check(matches!(j, JE::MissingRoot), kind),
        (Fault::Name, LoadErrorKind::Joints(j)) => check(matches!(j, JE::MissingJointName { .. }), kind),
        (Fault::Keyword, LoadErrorKind::Joints(j)) => check(matches!(j, JE::UnexpectedKeyword { .. }), kind),
        (Fault::ChannelsHere, LoadErrorKind::Joints(j)) => {
            check(matches!(j, JE::UnexpectedChannelsSection { .. }), kind)
        }
        (Fault::OffsetHere, LoadErrorKind::Joints(j)) => check(matches!(j, JE::UnexpectedOffsetSection { .. }), kind),
        (Fault::Channel, LoadErrorKind::Joints(j)) => check(matches!(j, JE::ParseChannelError { .. }), kind),
        (Fault::NumChannels(b), LoadErrorKind::Joints(j)) => match j {
            JE::ParseNumChannelsError { error, .. } => check(error.is_some() == b, kind),
            _ => check(false, kind),
        },
        (Fault::BadAxis(a), LoadErrorKind::Joints(j)) => match j {
            JE::ParseOffsetError { axis: x, .. } => check(axis(*x) == a, "the error names the axis"),
            _ => check(false, kind),
        },
        (Fault::NoAxis(a), LoadErrorKind::Joints(j)) => match j {
            JE::MissingOffsetAxis { axis: x, .. } => check(axis(*x) == a, "the error names the axis"),
            _ => check(false, kind),
        },
        (Fault::Motion, LoadErrorKind::Motion(m)) => check(matches!(m, ME::MissingMotionSection { .. }), kind),
        (Fault::Frames(b), LoadErrorKind::Motion(m)) => match m {
            ME::MissingNumFrames { parse_error, .. } => {
                check(b.is_none() || Some(parse_error.is_some()) == b, kind)
            }
            _ => check(false, kind),
        },
        (Fault::Time(b), LoadErrorKind::Motion(m)) => match m {
            ME::MissingFrameTime { parse_error, .. } => {
                check(b.is_none() || Some(parse_error.is_some()) == b, kind)
            }
            _ => check(false, kind),
        },
        (Fault::Value(k), LoadErrorKind::Motion(m)) => match m {
            ME::ParseMotionSection { channel_index, .. } => {
                check(*channel_index == k, "the error names the value")
            }
            _ => check(false, kind),
        },
        (Fault::Count(found, frames), LoadErrorKind::Motion(m)) => match m {
            ME::MotionCountMismatch {
                actual_total_motion_values: a,
                expected_total_motion_values: e,
                expected_num_frames: n,
                expected_num_clips: c,
            } => {
                check(*a == found, "the error names the number of values found");
                check(*e == frames.saturating_mul(channels), "the error names the number of values expected");
                check(*n == frames && *c == channels, "the error names the numbers expected");
            }
            _ => check(false, kind),
        },
        _ => check(false, kind),
    }
    cover("rejected");
}

/// The text of the lines with white lines strewn in, and the number of each line.
fn place(ls: &[L], mode: usize, at: usize) -> (Vec<u8>, Vec<usize>) {
    let mut v = vec![];
    let mut no = vec![];
    let mut n = 0;
    let eol: &[u8] = if mode == 3 { b"\r\n" } else { b"\n" };
    if mode == 3 {
        v.extend_from_slice(b"\r\n\t\r\n");
        n += 2;
    }
    for (i, l) in ls.iter().enumerate() {
        let white = match mode {
            0 => false,
            1 => i == at,
            2 => true,
            _ => matches!(l.k, K::Motion | K::Frames | K::Time | K::Row(_) | K::Open(_)),
        };
        if white {
            v.extend_from_slice(if mode == 2 { b" " } else { b"" });
            v.extend_from_slice(eol);
            n += 1;
        }
        no.push(n);
        for (k, t) in l.t.iter().enumerate() {
            if k > 0 {
                v.push(b' ');
            }
            v.extend_from_slice(t);
        }
        v.extend_from_slice(eol);
        n += 1;
    }
    (v, no)
}

const MODES: usize = 4;

/// Joints with channels, end sites inside and at leaves, two frames.
fn subject(n: usize, frames: usize) -> Spec {
    let mut js = tree(n);
    for i in 0..n {
        js[i].ch = vec![i % 6, (i + 3) % 6];
        js[i].off = v3();
    }
    js[n - 1].end = Some(v3());
    if n > 1 && flip() {
        js[0].end = Some(v3());
        js[0].end_at = choose(2);
    }
    spec(js, frames, Duration::new(0, 40_000_000))
}

/// Not a number: a symbolic letter and another byte, or one of a list.
fn junk() -> Vec<u8> {
    const J: [&[u8]; 9] = [b"1.5x", b"1.2.3", b"--1", b"+-2", b"1,5", b"0x10", b".", b"-", b"1e"];
    let k = choose(J.len() + 1);
    if k < J.len() {
        return J[k].to_vec();
    }
    let (a, b) = (byte(), byte());
    let l = a | 0x20;
    assume((l >= b'a') & (l <= b'z') & (l != b'i') & (l != b'n'));
    assume((b > b' ') & (b < 0x7f) & (b != b':'));
    vec![a, b]
}

/// Not a count.
fn junk_count() -> Vec<u8> {
    const J: [&[u8]; 6] = [b"1.5", b"-1", b"1x", b"99999999999999999999999", b"18446744073709551616", b"2e0"];
    let k = choose(J.len() + 1);
    if k < J.len() {
        return J[k].to_vec();
    }
    let a = byte();
    assume((a > b' ') & (a < 0x7f) & (a != b':') & !((a >= b'0') & (a <= b'9')) & (a != b'+') & (a != b'-'));
    vec![a]
}

fn wd(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}

/// A missing or unreadable word in any line.
pub fn words(n: usize) {
    let s = subject(n, 2);
    let c = s.channels();
    let mut ls = lines(&s);
    let at = choose(ls.len());
    let mode = choose(MODES);
    let mut line = at;
    let f = match ls[at].k {
        K::Hier => {
            ls[at].t[0] = wd("HIERARCH");
            line = at + 1;
            Fault::Keyword
        }
        K::Root | K::Joint(_) => {
            if flip() {
                ls[at].t.pop();
                Fault::Name
            } else {
                ls[at].t[0] = wd("JOIN");
                line = at + 1;
                Fault::Keyword
            }
        }
        K::Open(_) | K::EndOpen(_) => {
            ls[at].t[0] = wd("(");
            line = at + 1;
            Fault::OffsetHere
        }
        K::Off(_) | K::EndOff(_) => {
            let a = choose(3);
            if flip() {
                ls[at].t.truncate(1 + a);
                Fault::NoAxis(a)
            } else {
                ls[at].t[1 + a] = junk();
                Fault::BadAxis(a)
            }
        }
        K::Chan(_) => match choose(3) {
            0 => {
                ls[at].t.truncate(1);
                Fault::NumChannels(false)
            }
            1 => {
                ls[at].t[1] = junk_count();
                Fault::NumChannels(true)
            }
            _ => {
                const BAD: [&str; 6] = ["Wposition", "Xpos", "xpositio", "ROTATION", "Xposition,", "Zrotationn"];
                let k = 2 + choose(2);
                ls[at].t[k] = wd(BAD[choose(6)]);
                Fault::Channel
            }
        },
        K::End(_) => {
            if flip() {
                ls[at].t.pop();
            } else {
                ls[at].t[1] = wd("Sit");
            }
            Fault::Keyword
        }
        K::EndClose(_) | K::Close(_) => {
            ls[at].t[0] = wd(")");
            Fault::Open
        }
        K::Motion => {
            ls[at].t[0] = wd("MOTIO");
            Fault::Motion
        }
        K::Frames => match choose(3) {
            0 => {
                ls[at].t.pop();
                Fault::Frames(Some(false))
            }
            1 => {
                ls[at].t[1] = junk_count();
                Fault::Frames(Some(true))
            }
            _ => {
                ls[at].t[0] = wd("Frame:");
                Fault::Frames(Some(false))
            }
        },
        K::Time => match choose(5) {
            0 => {
                ls[at].t.pop();
                Fault::Time(Some(false))
            }
            1 => {
                ls[at].t[2] = junk();
                Fault::Time(Some(true))
            }
            2 => {
                const BAD: [&str; 4] = ["-1", "-0.25", "1e300", "-3e-9"];
                ls[at].t[2] = wd(BAD[choose(4)]);
                Fault::Time(None)
            }
            3 => {
                ls[at].t[0] = wd("Frames");
                Fault::Time(Some(false))
            }
            _ => {
                ls[at].t[1] = wd("Tim:");
                Fault::Time(Some(false))
            }
        },
        K::Row(_) => {
            let k = choose(c);
            match choose(3) {
                0 => {
                    ls[at].t.remove(k);
                    Fault::Count(2 * c - 1, 2)
                }
                1 => {
                    ls[at].t.insert(k, num(1.0));
                    Fault::Count(2 * c + 1, 2)
                }
                _ => {
                    ls[at].t[k] = junk();
                    Fault::Value(k)
                }
            }
        }
    };
    let (t, no) = place(&ls, mode, at);
    let (from, to) = match f {
        Fault::Open => (no[at], usize::MAX),
        _ => (no[line], no[line]),
    };
    expect(&t, f, from, to, c);
}

/// A line is missing.
pub fn dropped(n: usize) {
    let s = subject(n, 2);
    let c = s.channels();
    let mut ls = lines(&s);
    let mut at = choose(ls.len());
    let mode = choose(MODES);
    // channel lists and offsets may be left out; then the values are too many
    let f = match ls[at].k {
        K::Off(_) | K::EndOff(_) => stop_here(),
        K::Chan(_) => {
            ls.remove(at);
            let (t, _) = place(&ls, mode, at);
            return expect(&t, Fault::Count(2 * c, 2), 0, 0, c - 2);
        }
        K::Hier | K::Root | K::Joint(_) | K::End(_) => Fault::Keyword,
        K::Open(_) | K::EndOpen(_) => Fault::OffsetHere,
        K::EndClose(_) | K::Close(_) => Fault::Open,
        K::Motion => Fault::Motion,
        K::Frames => Fault::Frames(Some(false)),
        K::Time => Fault::Time(Some(false)),
        K::Row(_) => Fault::Count(c, 2),
    };
    if let K::Time = ls[at].k {
        // the first row is taken for the frame time line
    }
    ls.remove(at);
    if at == ls.len() {
        at -= 1;
    }
    let (t, no) = place(&ls, mode, at);
    let to = if f == Fault::Open { usize::MAX } else { no[at] };
    expect(&t, f, no[at], to, c);
}

fn stop_here() -> ! {
    stop();
    unreachable!()
}

/// The file ends early, after any line.
pub fn ended(n: usize) {
    let s = subject(n, 2);
    let c = s.channels();
    let mut ls = lines(&s);
    let k = choose(ls.len());
    let mode = choose(MODES);
    let f = match ls[k].k {
        K::Motion => Fault::Motion,
        K::Frames => Fault::Frames(Some(false)),
        K::Time => Fault::Time(Some(false)),
        K::Row(r) => Fault::Count(r * c, 2),
        _ => Fault::Root,
    };
    ls.truncate(k);
    let (mut t, no) = place(&ls, mode, k);
    let mut last = no.last().copied().unwrap_or(0);
    match choose(3) {
        0 => {}
        1 => {
            t.extend_from_slice(b"\n \n");
            last += 2;
        }
        _ => {
            t.pop();
        }
    }
    expect(&t, f, no.last().copied().unwrap_or(0), last, c);
}

/// More or fewer values than declared, whatever number is declared.
pub fn counts(n: usize, rows: usize) {
    let f = choose(rows + 1);
    let mut s = subject(n, f);
    let c = s.channels();
    let mut ls = lines(&s);
    let at = ls.iter().position(|l| l.k == K::Frames).unwrap_or(0);
    s.frames = u64_() as usize;
    assume(s.frames != f);
    ls[at].t[1] = int(s.frames);
    let (t, _) = place(&ls, choose(MODES), at);
    expect(&t, Fault::Count(f * c, s.frames), 0, 0, c);
}

/// Values for a skeleton without channels, and skeletons whose values are missing altogether.
pub fn no_channels() {
    let n = 1 + choose(3);
    let mut js = tree(n);
    ends(&mut js, false);
    let c = choose(2);
    if c == 1 {
        js[n - 1].ch = vec![0];
    }
    let mut s = spec(js, 0, Duration::new(0, 5));
    s.frames = u64_() as usize;
    assume((c == 0) | (s.frames != 0));
    let mut ls = lines(&Spec { frames: 0, ..s.clone() });
    for l in ls.iter_mut() {
        if l.k == K::Frames {
            l.t[1] = int(s.frames);
        }
    }
    let have = if c == 1 { 0 } else { 1 + choose(3) };
    if have > 0 {
        ls.push(L { k: K::Row(0), depth: 0, t: values(have).iter().map(|x| num(*x)).collect() });
    }
    let at = ls.len() - 1;
    let (t, _) = place(&ls, choose(MODES), at);
    expect(&t, Fault::Count(have, s.frames), 0, 0, c);
}

/// One row has another number of values.
pub fn rows() {
    let s = subject(2, 3);
    let c = s.channels();
    let mut ls = lines(&s);
    let r = choose(3);
    let at = ls.len() - 3 + r;
    let k = choose(2 * c + 1);
    assume(k != c);
    ls[at].t = values(k).iter().map(|x| num(*x)).collect();
    if flip() {
        // and one of the values cannot be read, in any row
        let q = choose(3);
        let at = ls.len() - 3 + q;
        let m = ls[at].t.len();
        if m == 0 {
            stop_here();
        }
        let j = choose(m);
        ls[at].t[j] = wd("x1");
        let (t, no) = place(&ls, choose(MODES), at);
        return expect(&t, Fault::Value(j), no[at], no[at], c);
    }
    let (t, _) = place(&ls, choose(MODES), at);
    expect(&t, Fault::Count(2 * c + k, 3), 0, 0, c);
}

#[derive(Clone, Copy, PartialEq)]
enum Ctx {
    Before,
    NoRoot,
    Brace,
    /// In a joint: had an end site, had channels, had a child
    Body(bool, bool, bool),
    End,
    After,
}

/// The context in front of line `at`.
fn context(ls: &[L], at: usize) -> Ctx {
    let mut stack: Vec<(usize, bool, bool, bool)> = vec![];
    let mut c = Ctx::Before;
    for l in &ls[..at] {
        c = match l.k {
            K::Hier => Ctx::NoRoot,
            K::Root | K::Joint(_) => {
                if let Some(t) = stack.last_mut() {
                    t.3 = true;
                }
                Ctx::Brace
            }
            K::End(_) => {
                if let Some(t) = stack.last_mut() {
                    t.1 = true;
                }
                Ctx::Brace
            }
            K::Open(i) => {
                stack.push((i, false, false, false));
                Ctx::Body(false, false, false)
            }
            K::EndOpen(_) | K::EndOff(_) => Ctx::End,
            K::Chan(_) => {
                if let Some(t) = stack.last_mut() {
                    t.2 = true;
                }
                Ctx::Body(false, false, false)
            }
            K::Close(_) => {
                stack.pop();
                if stack.is_empty() { Ctx::After } else { Ctx::Body(false, false, false) }
            }
            K::EndClose(_) | K::Off(_) => Ctx::Body(false, false, false),
            _ => Ctx::After,
        };
        if let (Ctx::Body(..), Some(t)) = (c, stack.last()) {
            c = Ctx::Body(t.1, t.2, t.3);
        }
    }
    c
}

/// The fault of a line that may not follow what is open.
fn unfit(k: K) -> Fault {
    match k {
        K::Off(_) | K::EndOff(_) => Fault::OffsetHere,
        K::Chan(_) => Fault::ChannelsHere,
        _ => Fault::Keyword,
    }
}

/// A keyword line where none belongs.
pub fn misplaced(n: usize) {
    let s = subject(n, 1);
    let c = s.channels();
    let mut ls = lines(&s);
    let at = choose(ls.len() + 1);
    let ctx = context(&ls, at);
    let kw = choose(8);
    let t: Vec<Vec<u8>> = match kw {
        0 => vec![wd("HIERARCHY")],
        1 => vec![wd("ROOT"), wd("x")],
        2 => vec![wd("{")],
        3 => vec![wd("}")],
        4 => vec![wd("JOINT"), wd("x")],
        5 => vec![wd("End"), wd("Site")],
        6 => vec![wd("OFFSET"), wd("1"), wd("2"), wd("3")],
        _ => vec![wd("CHANNELS"), wd("1"), wd("Xposition")],
    };
    // the fault, and how many lines further on it shows
    let (f, d) = match (ctx, kw) {
        (Ctx::After, _) => match ls.get(at).map(|l| l.k) {
            Some(K::Motion) => (Fault::Motion, 0),
            Some(K::Frames) => (Fault::Frames(Some(false)), 0),
            Some(K::Time) => (Fault::Time(Some(false)), 0),
            _ => (Fault::Value(0), 0),
        },
        (Ctx::Before, 0) => (Fault::Keyword, 1),
        (Ctx::NoRoot, 1) => (Fault::Keyword, 1),
        (Ctx::Brace, 2) => (Fault::Keyword, 1),
        (Ctx::Body(..), 3) | (Ctx::End, 3) => (Fault::Any, 0),
        (Ctx::Body(..), 4) => (unfit(ls[at].k), 1),
        (Ctx::Body(false, _, _), 5) => (unfit(ls[at].k), 1),
        (Ctx::Body(..), 6) | (Ctx::End, 6) => stop_here(),
        (Ctx::Body(_, false, _), 7) => {
            // the joint's own channel list is then the second
            let d = ls[at..].iter().position(|l| matches!(l.k, K::Chan(_))).unwrap_or(0);
            (Fault::ChannelsHere, d + 1)
        }
        (_, 6) => (Fault::OffsetHere, 0),
        (_, 7) => (Fault::ChannelsHere, 0),
        _ => (Fault::Keyword, 0),
    };
    let l = L { k: K::Hier, depth: 0, t };
    ls.insert(at, l);
    let (t, no) = place(&ls, choose(3), at);
    let line = no[at + d];
    let to = if f == Fault::Any { usize::MAX } else { line };
    expect(&t, f, line, to, c);
}

/// Errors of edits can be displayed and say what is wrong.
pub fn edit_errors() {
    let mut js = tree(1);
    js[0].ch = vec![0, 1];
    let mut b = loaded(from_bytes(&text(&spec(js, 2, Duration::new(0, 1)))[..]));
    let k = choose(5);
    assume(k != 2);
    let r = values(k);
    match b.frame_cursor().try_insert_frame(&r[..]) {
        Ok(_) => check(false, "a frame of another length is not inserted"),
        Err(e) => {
            let mut want = wd("Attempted to insert a frame with ");
            want.extend_from_slice(k.to_string().as_bytes());
            want.extend_from_slice(b" channels into a bvh containing 2 channels");
            check(e.to_string().as_bytes() == &want[..], "the error names both lengths");
        }
    }
    let mut n = 0;
    for _ in 0..3 {
        let mut cur = b.frame_cursor();
        if let Err(e) = cur.remove_frame() {
            check(!e.to_string().is_empty(), "every error can be displayed");
            n += 1;
        }
    }
    check(n == 1, "removing from an empty animation fails");
    let x = u64_() as usize;
    check(!errors::SetMotionError::BadFrame(x).to_string().is_empty(), "every error can be displayed");
    check(!errors::SetMotionError::BadChannel(x).to_string().is_empty(), "every error can be displayed");
    let v = vec![byte(), b'q'];
    let w = v.clone();
    let e = match ChannelType::from_bytes(&v) {
        Ok(_) => stop_here(),
        Err(e) => e,
    };
    check(!e.to_string().is_empty(), "every error can be displayed");
    check(e.into_inner() == w, "the error has the text that is no channel name");
    cover("end");
}
