//! C15: channel types and axes.
use crate::doc::*;
use crate::sym::*;
use bvh_anim::*;
use std::convert::TryFrom;
use std::str::FromStr;

fn road(v: &[u8], r: usize) -> Option<Result<ChannelType, errors::ParseChannelError>> {
    Some(match r {
        0 => ChannelType::from_bytes(v),
        1 => ChannelType::from_bytes(&v.to_vec()),
        2 => ChannelType::try_from(v),
        _ => {
            let s = match std::str::from_utf8(v) {
                Ok(s) => s,
                Err(_) => return None,
            };
            match r {
                3 => ChannelType::try_from(s),
                4 => ChannelType::from_str(s),
                _ => ChannelType::from_bytes(s),
            }
        }
    })
}

fn judge(v: &[u8], r: Result<ChannelType, errors::ParseChannelError>) {
    let mut want = None;
    for i in 0..6 {
        if v == NAMES[i].as_bytes() {
            want = Some(i);
        }
    }
    match (r, want) {
        (Ok(t), Some(i)) => {
            check(t == TYPES[i], "a name stands for its channel type");
            cover("accepted");
        }
        (Err(e), None) => {
            let text = e.to_string();
            check(!text.is_empty(), "the error can be displayed");
            check(e.into_inner() == v, "the error hands back the refused bytes");
            cover("refused");
        }
        (Ok(_), None) => check(false, "only the six names are accepted"),
        (Err(_), Some(_)) => check(false, "each of the six names is accepted"),
    }
}

fn judge_bytes(v: &[u8], roads: usize) {
    let k = choose(roads);
    if let Some(r) = road(v, k) {
        let mut want = None;
        for i in 0..6 {
            if v == NAMES[i].as_bytes() {
                want = Some(i);
            }
        }
        match (r, want) {
            (Ok(t), Some(i)) => {
                check(t == TYPES[i], "a name stands for its channel type");
                cover("accepted");
            }
            (Err(e), None) => {
                check(e.into_inner() == v, "the error hands back the refused bytes");
                cover("refused");
            }
            (Ok(_), None) => check(false, "only the six names are accepted"),
            (Err(_), Some(_)) => check(false, "each of the six names is accepted"),
        }
    }
}

/// Any bytes of any length up to `n`.
pub fn bytes(n: usize, roads: usize) {
    let len = choose(n + 1);
    let mut v = vec![];
    for _ in 0..len {
        v.push(byte());
    }
    judge_bytes(&v, roads);
}

/// Text close to a name: one or two letters any, missing, doubled, or in front or behind.
pub fn near() {
    let n = NAMES[choose(6)].as_bytes();
    let p = choose(10);
    let mut v = n[..p.min(9)].to_vec();
    match choose(5) {
        0 => v.extend_from_slice(&n[p.min(9)..]),
        1 => {
            v.push(byte());
            v.extend_from_slice(&n[p.min(9)..]);
        }
        2 => {
            v.push(byte());
            if p < 9 {
                v.extend_from_slice(&n[p + 1..]);
            }
        }
        3 => {
            if p < 9 {
                v.extend_from_slice(&n[p + 1..]);
            }
        }
        _ => {
            v.push(byte());
            v.push(byte());
            if p < 8 {
                v.extend_from_slice(&n[p + 2..]);
            }
        }
    }
    let k = choose(3);
    if let Some(r) = road(&v, k) {
        judge_short(&v, r);
    }
}

fn judge_short(v: &[u8], r: Result<ChannelType, errors::ParseChannelError>) {
    let mut want = None;
    for i in 0..6 {
        if v == NAMES[i].as_bytes() {
            want = Some(i);
        }
    }
    match r {
        Ok(t) => {
            check(want.map(|i| TYPES[i]) == Some(t), "only a name stands for its channel type");
            cover("accepted");
        }
        Err(e) => {
            check(want.is_none(), "each of the six names is accepted");
            check(e.into_inner() == v, "the error hands back the refused bytes");
            cover("refused");
        }
    }
}

/// Displaying the error for any bytes, also odd ones.
pub fn display() {
    let mut v = b"Xpos".to_vec();
    v.push([0u8, 0xff, b'\n', b'"', 0xc3, b'9'][choose(6)]);
    judge(&v, ChannelType::from_bytes(&v));
    cover("displayed");
}

/// The names, kinds and axes of the types.
pub fn kinds() {
    let i = choose(6);
    let j = choose(6);
    let (t, u) = (TYPES[i], TYPES[j]);
    check(t.as_str() == NAMES[i], "a channel type's name");
    check(t.to_string() == NAMES[i], "a channel type's name, displayed");
    check((t == u) == (i == j), "channel types are distinct");
    check((t.as_str() == u.as_str()) == (i == j), "names are distinct");
    check(t.is_position() == (i < 3) && t.is_rotation() == (i >= 3), "position or rotation");
    let axes = [Axis::X, Axis::Y, Axis::Z];
    let a = t.axis();
    check(a == axes[i % 3], "the axis in the name");
    let v = a.vector();
    for k in 0..3 {
        check(same(v[k], if k == i % 3 { 1.0 } else { 0.0 }), "the unit vector along the axis");
    }
    check(a.to_string().eq_ignore_ascii_case(&NAMES[i][..1]), "the axis, displayed");
    for r in 0..6 {
        match road(NAMES[i].as_bytes(), r) {
            Some(Ok(x)) => check(x == t, "a name stands for its channel type"),
            _ => check(false, "each of the six names is accepted"),
        }
    }
    cover("end");
}
