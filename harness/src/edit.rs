//! C11, C12, C13, C14, C19: frames, cursors, views, equality.
use crate::doc::*;
use crate::sym::*;
use bvh_anim::frames::{Frame, FrameCursor, FrameMut, Frames, FramesMut};
use bvh_anim::*;
use std::time::Duration;

type Rows = Vec<Vec<f32>>;

/// A skeleton of two joints with `c` channels together.
fn skel(c: usize) -> Vec<J> {
    let mut js = vec![J::new(b"a", None, 0), J::new(b"b", Some(0), 1)];
    let split = c / 2;
    for k in 0..c {
        js[if k < split { 0 } else { 1 }].ch.push((k * 5 + 2) % 6);
    }
    js[0].off = [1.0, 2.0, 3.0];
    js[1].end = Some([4.0, 5.0, 6.0]);
    js
}

/// A loaded animation of `f` frames of `c` values, any finite values, and its rows.
pub fn animation(c: usize, f: usize) -> (Bvh, Spec, Rows) {
    let s = spec(skel(c), f, Duration::new(2, 500_000_000));
    let b = loaded(from_bytes(&text(&s)[..]));
    let rows = (0..f).map(|i| s.vals[i * c..(i + 1) * c].to_vec()).collect();
    (b, s, rows)
}

/// Any values, not only finite ones.
pub fn row(c: usize) -> Vec<f32> {
    let mut v = vec![];
    for _ in 0..c {
        v.push(f32_any());
    }
    v
}

pub fn same_row(a: &[f32], b: &[f32]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= same(a[i], b[i]);
    }
    r
}

pub fn check_rows(b: &Bvh, m: &Rows, msg: &str) {
    let mut n = 0;
    for f in b.frames() {
        if n < m.len() {
            check(same_row(f.as_slice(), &m[n]), msg);
        }
        n += 1;
    }
    check(n == m.len(), msg);
    check(b.frames().len() == m.len(), msg);
}

/// Everything but the frames is that of `s`.
pub fn check_rest(b: &Bvh, s: &Spec) {
    check_skeleton(b, s);
    check(*b.frame_time() == s.time, "frame time unchanged");
}

/// A cursor moved to `p` of `f` in one of several ways.
pub fn at<'a>(b: &'a mut Bvh, p: usize, f: usize) -> FrameCursor<'a> {
    let mut c = b.frame_cursor();
    match choose(3) {
        0 => {
            for _ in 0..p {
                c.move_next();
            }
        }
        1 => {
            c.move_last();
            for _ in 0..f - p {
                c.move_prev();
            }
        }
        _ => {
            c.move_last().move_next().move_first().move_prev();
            for _ in 0..p {
                c.move_next();
            }
        }
    }
    check(c.index() == p, "the cursor moves to the position");
    check(c.len() == f, "the cursor reports the number of frames");
    c
}

// ---------------------------------------------------------------- C11

pub fn insert_one(mc: usize, mf: usize) {
    let c = 1 + choose(mc);
    let f = choose(mf + 1);
    let p = choose(f + 1);
    let (mut b, s, mut m) = animation(c, f);
    let new = row(c);
    {
        let mut cur = at(&mut b, p, f);
        check(cur.num_channels() == c, "the cursor reports the channel count");
        match cur.try_insert_frame(&new) {
            Ok(cur) => check(cur.index() == p + 1, "the position is just after the new frame"),
            Err(_) => check(false, "a frame of the right length is inserted"),
        }
        check(cur.index() == p + 1, "the position is just after the new frame");
        check(cur.len() == f + 1, "one frame more");
    }
    m.insert(p, new);
    check_rows(&b, &m, "frames after an insertion");
    check_rest(&b, &s);
    cover("inserted");
    if p < f {
        cover("inserted before a frame");
    }
}

/// A frame of any other length.
pub fn insert_bad(mc: usize, mf: usize) {
    let c = choose(mc + 1);
    let f = if c == 0 { 0 } else { choose(mf + 1) };
    let p = choose(f + 1);
    let n = choose(2 * mc + 2);
    assume(n != c);
    let (mut b, s, m) = animation(c, f);
    let new = row(n);
    {
        let mut cur = at(&mut b, p, f);
        match cur.try_insert_frame(&new) {
            Ok(_) => check(false, "a frame of the wrong length is refused"),
            Err(e) => {
                check(!e.to_string().is_empty(), "the error can be displayed");
                cover("refused");
            }
        }
        check(cur.index() == p, "a refused frame does not move the position");
    }
    check_rows(&b, &m, "a refused frame changes nothing");
    check_rest(&b, &s);
}

/// An iterator with an unhelpful size hint.
struct Hint<'a> {
    rows: std::slice::Iter<'a, Vec<f32>>,
    hint: (usize, Option<usize>),
}
impl<'a> Iterator for Hint<'a> {
    type Item = &'a Vec<f32>;
    fn next(&mut self) -> Option<Self::Item> {
        self.rows.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

/// Several frames, with or without one of the wrong length among them.
pub fn insert_many(mc: usize, mf: usize, mn: usize) {
    let c = 1 + choose(mc);
    let f = choose(mf + 1);
    let p = choose(f + 1);
    let n = choose(mn + 1);
    let bad = choose(n + 1); // n: none
    let (mut b, s, mut m) = animation(c, f);
    let mut new: Rows = vec![];
    for i in 0..n {
        new.push(row(if i == bad { if flip() { c + 1 } else { c - 1 } } else { c }));
    }
    let good = if bad < n { bad } else { n };
    let how = choose(5);
    {
        let mut cur = at(&mut b, p, f);
        alloc_limit(1 << 20);
        let ok = match how {
            0 => cur.try_insert_frames(&new).is_ok(),
            1 => {
                let h = Hint { rows: new.iter(), hint: (0, None) };
                cur.try_insert_frames(h).is_ok()
            }
            2 => {
                let h = Hint { rows: new.iter(), hint: (0, Some(usize::MAX)) };
                cur.try_insert_frames(h).is_ok()
            }
            3 => {
                let h = Hint { rows: new.iter(), hint: (n.min(1), Some(n)) };
                cur.try_insert_frames(h).is_ok()
            }
            _ => {
                // one after another
                let mut ok = true;
                for r in &new {
                    if ok {
                        ok = cur.try_insert_frame(&r[..]).is_ok();
                    }
                }
                ok
            }
        };
        check(ok == (bad == n), "several frames are accepted if each has the right length");
        check(cur.index() == p + good, "the position is just after the inserted frames");
    }
    for i in 0..good {
        m.insert(p + i, new[i].clone());
    }
    check_rows(&b, &m, "several frames as one after another");
    check_rest(&b, &s);
    cover(if bad == n { "all inserted" } else { "one refused" });
}

/// Rows cut from one slice, as the literal macro does.
pub fn insert_chunks() {
    let c = 1 + choose(3);
    let f = choose(3);
    let p = choose(f + 1);
    let n = choose(8);
    let (mut b, _, mut m) = animation(c, f);
    let flat = row(n);
    let ok = at(&mut b, p, f).try_insert_frames(flat.chunks(c)).is_ok();
    check(ok == (n % c == 0), "chunks are accepted if each has the right length");
    for i in 0..n / c {
        m.insert(p + i, flat[i * c..(i + 1) * c].to_vec());
    }
    check_rows(&b, &m, "several frames as one after another");
    cover("end");
}

/// Frames copied from another animation, and frames without values.
pub fn insert_foreign() {
    let (c, d) = (choose(4), choose(4));
    let f = if c == 0 { 0 } else { choose(3) };
    let g = if d == 0 { 0 } else { 1 + choose(2) };
    let (mut b, s, mut m) = animation(c, f);
    let (o, _, om) = animation(d, g);
    {
        let mut cur = b.frame_cursor();
        cur.move_last();
        let mut n = 0;
        for fr in o.frames() {
            let r = cur.try_insert_frame(&fr);
            check(r.is_ok() == (c == d), "a frame of another animation fits if its length does");
            if c == d {
                m.insert(f + n, om[n].clone());
                n += 1;
            }
        }
        let none: [f32; 0] = [];
        let r = cur.try_insert_frame(&none[..]);
        check(r.is_ok() == (c == 0), "an empty frame fits only without channels");
        check(cur.index() == f + n, "the position is just after the inserted frames");
    }
    check_rows(&b, &m, "frames copied from another animation");
    check_rest(&b, &s);
    cover("end");
}

// ---------------------------------------------------------------- C12

pub fn remove(mc: usize, mf: usize) {
    let c = choose(mc + 1);
    let f = if c == 0 { 0 } else { choose(mf + 1) };
    let p = choose(f + 1);
    let (mut b, s, mut m) = animation(c, f);
    let times = 1 + choose(3);
    {
        let mut cur = at(&mut b, p, f);
        for _ in 0..times {
            match cur.remove_frame() {
                Ok(cur) => {
                    check(p < m.len(), "there is no frame to remove at the end");
                    check(cur.index() == p, "removing leaves the position");
                    cover("removed");
                    if p < m.len() {
                        m.remove(p);
                    }
                }
                Err(e) => {
                    check(p >= m.len(), "the frame at the position is removed");
                    check(!e.to_string().is_empty(), "the error can be displayed");
                    cover("refused");
                }
            }
            check(cur.index() == p, "removing leaves the position");
            check(cur.len() == m.len(), "number of frames after a removal");
        }
    }
    check_rows(&b, &m, "exactly the frame at the position is removed");
    check_rest(&b, &s);
}

/// Remove all frames or take them out, then edit on.
pub fn clear(mc: usize, mf: usize) {
    let c = choose(mc + 1);
    let f = if c == 0 { 0 } else { choose(mf + 1) };
    let p = choose(f + 1);
    let (mut b, mut s, m) = animation(c, f);
    let how = choose(3);
    match how {
        0 => {
            let mut cur = at(&mut b, p, f);
            let i = cur.remove_all_frames().index();
            check(i == 0, "no frames: the position is zero");
            check(cur.len() == 0, "no frames after removing all");
            check(cur.peek_next().is_none() && cur.peek_prev().is_none(), "no frames to look at");
            check(cur.remove_frame().is_err(), "nothing left to remove");
        }
        1 => {
            let mut cur = at(&mut b, p, f);
            for _ in p..f {
                check(cur.remove_frame().is_ok(), "the frame at the position is removed");
            }
            cur.move_first();
            for _ in 0..p {
                check(cur.remove_frame().is_ok(), "the frame at the position is removed");
            }
            cur.shrink_to_fit();
            check(cur.remove_frame().is_err(), "nothing left to remove");
        }
        _ => {
            let v = b.extract_frames();
            let mut flat = vec![];
            for r in &m {
                flat.extend_from_slice(r);
            }
            check(same_row(&v, &flat), "the values taken out are those of the frames");
        }
    }
    check_rows(&b, &vec![], "no frames left");
    check_rest(&b, &s);
    #[allow(deprecated)]
    let n = b.num_frames();
    check(n == 0, "no frames left");
    // goes on like an animation without frames
    let new = row(c);
    let ok = {
        let mut cur = b.frame_cursor();
        cur.move_last();
        cur.try_insert_frame(&new[..]).is_ok()
    };
    check(ok, "a frame can be inserted again");
    check_rows(&b, &if c > 0 { vec![new] } else { vec![] }, "edited further");
    s.frames = 1;
    check_rest(&b, &s);
    cover("end");
}

// ---------------------------------------------------------------- C13

pub fn look(cur: &FrameCursor<'_>, m: &Rows, i: usize) {
    check(cur.index() == i, "the position");
    check(i <= m.len(), "the position is within the frames");
    check(cur.len() == m.len(), "number of frames");
    let show = |f: Option<Frame<'_>>, k: Option<usize>| match (f, k) {
        (Some(f), Some(k)) => check(same_row(f.as_slice(), &m[k]), "the frame beside the position"),
        (None, None) => {}
        _ => check(false, "a frame exactly where the list has one"),
    };
    let next = if i < m.len() { Some(i) } else { None };
    let prev = if i > 0 { Some(i - 1) } else { None };
    show(cur.peek_next(), next);
    show(cur.peek_prev(), prev);
    let (a, b) = cur.surrounding_frames();
    show(a, prev);
    show(b, next);
}

/// Any sequence of `n` cursor operations, like a list with a position. `heavy`: with the
/// operations on several frames and through views.
pub fn history(n: usize, c: usize, f: usize, heavy: bool) {
    let (mut b, s, mut m) = animation(c, f);
    {
        let mut cur = b.frame_cursor();
        let mut i = 0usize;
        for _ in 0..n {
            match choose(if heavy { 12 } else { 7 }) {
                0 => {
                    cur.move_next();
                    i = (i + 1).min(m.len());
                }
                1 => {
                    cur.move_prev();
                    i = i.saturating_sub(1);
                }
                2 => {
                    cur.move_first();
                    i = 0;
                }
                3 => {
                    cur.move_last();
                    i = m.len();
                }
                4 => {
                    let r = row(c);
                    check(cur.try_insert_frame(&r).is_ok(), "a frame of the right length is inserted");
                    m.insert(i, r);
                    i += 1;
                }
                5 => {
                    let ok = cur.remove_frame().is_ok();
                    check(ok == (i < m.len()), "removing succeeds exactly where there is a frame");
                    if i < m.len() {
                        m.remove(i);
                    }
                }
                6 => {
                    cur.remove_all_frames();
                    m.clear();
                    i = 0;
                }
                7 => {
                    let r = row(c + 1);
                    check(cur.try_insert_frame(&r).is_err(), "a frame of the wrong length is refused");
                }
                8 => {
                    let rs = [row(c), row(c)];
                    check(cur.try_insert_frames(&rs).is_ok(), "frames of the right length are inserted");
                    for r in rs.iter() {
                        m.insert(i, r.clone());
                        i += 1;
                    }
                }
                9 => {
                    let x = f32_any();
                    let k = choose(c);
                    match cur.peek_next_mut() {
                        Some(mut v) => {
                            check(i < m.len(), "a frame exactly where the list has one");
                            if i < m.len() {
                                v.as_mut_slice()[k] = x;
                                m[i][k] = x;
                            }
                        }
                        None => check(i >= m.len(), "a frame exactly where the list has one"),
                    }
                }
                10 => {
                    let x = f32_any();
                    let k = choose(c);
                    match cur.peek_prev_mut() {
                        Some(mut v) => {
                            check(i > 0, "a frame exactly where the list has one");
                            if i > 0 {
                                v[k] = x;
                                m[i - 1][k] = x;
                            }
                        }
                        None => check(i == 0, "a frame exactly where the list has one"),
                    }
                }
                _ => cur.shrink_to_fit(),
            }
            look(&cur, &m, i);
        }
        // the rest of the frames from the position on
        let tail = choose(3);
        let mut k = i;
        match tail {
            0 => {
                let fr: Frames<'_> = cur.into_frames();
                check(fr.len() == m.len() - i, "as many frames as follow the position");
                for v in fr {
                    check(k < m.len() && same_row(v.as_slice(), &m[k]), "frames from the position on");
                    k += 1;
                }
                check(k == m.len(), "frames from the position on");
            }
            1 => {
                let fr = FramesMut::from(cur);
                check(fr.len() == m.len() - i, "as many frames as follow the position");
                for mut v in fr {
                    check(k < m.len() && same_row(v.as_slice(), &m[k]), "frames from the position on");
                    if k < m.len() && c > 0 {
                        let x = f32_any();
                        v[c - 1] = x;
                        m[k][c - 1] = x;
                    }
                    k += 1;
                }
                check(k == m.len(), "frames from the position on");
            }
            _ => {}
        }
    }
    check_rows(&b, &m, "frames as in the list");
    check_rest(&b, &s);
    cover("end");
    if m.len() > f {
        cover("longer");
    }
}

/// The same without channels: there are never frames.
pub fn history_empty(n: usize) {
    let mut b = if flip() { animation(0, 0).0 } else { Bvh::new() };
    {
        let mut cur = b.frame_cursor();
        for _ in 0..n {
            match choose(8) {
                0 => {
                    cur.move_next();
                }
                1 => {
                    cur.move_prev();
                }
                2 => {
                    cur.move_first();
                }
                3 => {
                    cur.move_last();
                }
                4 => {
                    let none: [f32; 0] = [];
                    check(cur.try_insert_frame(&none[..]).is_ok(), "an empty frame fits");
                }
                5 => check(cur.remove_frame().is_err(), "there is no frame to remove"),
                6 => {
                    cur.remove_all_frames();
                }
                _ => {
                    check(cur.try_insert_frame(&[f32_any()]).is_err(), "a frame with values does not fit");
                }
            }
            check(cur.index() == 0 && cur.len() == 0, "the position is zero without frames");
            check(cur.peek_next().is_none() && cur.peek_prev().is_none(), "no frames to look at");
            check(cur.peek_next_mut().is_none(), "no frames to look at");
            check(cur.peek_prev_mut().is_none(), "no frames to look at");
        }
    }
    check(b.frames().next().is_none() && b.frames().len() == 0, "no frames");
    check(b.frames_mut().next().is_none() && b.frames_mut().len() == 0, "no frames");
    cover("end");
}

// ---------------------------------------------------------------- C14

/// Frames taken from both ends in any order.
pub fn both_ends(mc: usize, mf: usize) {
    let c = choose(mc + 1);
    let f = if c == 0 { choose(2) } else { choose(mf + 1) };
    let (mut b, _, m) = animation(c, f);
    let f = if c == 0 { 0 } else { f };
    let m = if c == 0 { vec![] } else { m };
    let mutable = flip();
    let (mut lo, mut hi) = (0, f);
    if mutable {
        let mut it = b.frames_mut();
        for _ in 0..f + 2 {
            check(it.len() == hi - lo, "length is the number of frames to come");
            check(it.size_hint() == (hi - lo, Some(hi - lo)), "size hint is the number of frames to come");
            match choose(4) {
                0 => match it.next() {
                    Some(v) => {
                        check(lo < hi && same_row(v.as_slice(), &m[lo]), "next frame from the front");
                        lo += 1;
                    }
                    None => check(lo >= hi, "frames until the ends meet"),
                },
                1 => match it.next_back() {
                    Some(v) => {
                        check(lo < hi && same_row(v.as_slice(), &m[hi - 1]), "next frame from the back");
                        hi -= 1;
                    }
                    None => check(lo >= hi, "frames until the ends meet"),
                },
                2 => {
                    let k = choose(3);
                    match it.nth(k) {
                        Some(v) => {
                            check(lo + k < hi && same_row(v.as_slice(), &m[lo + k]), "frame by position");
                            lo += k + 1;
                        }
                        None => {
                            check(lo + k >= hi, "frame by position");
                            lo = hi;
                        }
                    }
                }
                _ => break,
            }
            if lo > hi {
                break;
            }
        }
    } else {
        let mut it = b.frames();
        for _ in 0..f + 2 {
            check(it.len() == hi - lo, "length is the number of frames to come");
            check(it.size_hint() == (hi - lo, Some(hi - lo)), "size hint is the number of frames to come");
            match choose(4) {
                0 => match it.next() {
                    Some(v) => {
                        check(lo < hi && same_row(v.as_slice(), &m[lo]), "next frame from the front");
                        lo += 1;
                    }
                    None => check(lo >= hi, "frames until the ends meet"),
                },
                1 => match it.next_back() {
                    Some(v) => {
                        check(lo < hi && same_row(v.as_slice(), &m[hi - 1]), "next frame from the back");
                        hi -= 1;
                    }
                    None => check(lo >= hi, "frames until the ends meet"),
                },
                2 => {
                    let k = choose(3);
                    match it.nth_back(k) {
                        Some(v) => {
                            check(lo + k < hi && same_row(v.as_slice(), &m[hi - 1 - k]), "frame from the back");
                            hi -= k + 1;
                        }
                        None => {
                            check(lo + k >= hi, "frame from the back");
                            lo = hi;
                        }
                    }
                }
                _ => break,
            }
            if lo > hi {
                break;
            }
        }
    }
    cover(if mutable { "mutable" } else { "read-only" });
}

/// One value by every road.
pub fn one_value(mc: usize, mf: usize) {
    let c = 1 + choose(mc);
    let f = 1 + choose(mf);
    let (mut b, _, m) = animation(c, f);
    let i = choose(f);
    // by channel of a joint, with and without a reference
    let ro = b.clone();
    let mut seen = 0;
    {
        let fr = match ro.frames().nth(i) {
            Some(fr) => fr,
            None => {
                check(false, "frame by position");
                return;
            }
        };
        check(fr.len() == c && !fr.is_empty(), "length of a frame");
        for j in ro.joints() {
            for ch in j.channels() {
                let k = ch.motion_index();
                check(k == seen, "channels number the values in order");
                seen += 1;
                let want = m[i][k];
                check(same(fr[ch], want), "value by channel");
                check(same(fr[*ch], want), "value by channel");
                check(fr.get(ch).map(|x| x.to_bits()) == Some(want.to_bits()), "value by channel");
                check(fr.get(k).map(|x| x.to_bits()) == Some(want.to_bits()), "value by position");
                check(same(fr[k], want), "value by position");
                check(same(fr.as_slice()[k], want), "value in the slice");
                let ar: &[f32] = fr.as_ref();
                check(same(ar[k], want), "value in the slice");
                let bo: &[f32] = std::borrow::Borrow::borrow(&fr);
                check(same(bo[k], want), "value in the slice");
            }
        }
        check(seen == c, "every value has a channel");
        let (lo, hi) = (choose(c + 2), choose(c + 2));
        match fr.get(lo..hi) {
            Some(v) => check(lo <= hi && hi <= c && same_row(v, &m[i][lo..hi]), "values by range"),
            None => check(lo > hi || hi > c, "a range within the frame yields its values"),
        }
        let k = u64_() as usize;
        match fr.get(k) {
            Some(v) => check(k < c && same(*v, m[i][k]), "value by any position"),
            None => check(k >= c, "a position outside yields nothing"),
        }
        check(fr.get(..).map(|v| same_row(v, &m[i])) == Some(true), "the whole range");
    }
    {
        let mut it = b.frames_mut();
        let mut fr = match it.nth(i) {
            Some(fr) => fr,
            None => {
                check(false, "frame by position");
                return;
            }
        };
        check(fr.len() == c && !fr.is_empty(), "length of a frame");
        check(same_row(fr.as_slice(), &m[i]), "mutable view shows the same values");
        for j in ro.joints() {
            for ch in j.channels() {
                let want = m[i][ch.motion_index()];
                check(same(fr[ch], want) && same(fr[*ch], want), "value by channel, mutable view");
                check(fr.get(ch).map(|x| x.to_bits()) == Some(want.to_bits()), "value by channel, mutable view");
            }
        }
        let k = u64_() as usize;
        match fr.get(k) {
            Some(v) => check(k < c && same(*v, m[i][k]), "value by any position, mutable view"),
            None => check(k >= c, "a position outside yields nothing"),
        }
        let (lo, hi) = (choose(c + 2), choose(c + 2));
        match fr.get(lo..hi) {
            Some(v) => check(lo <= hi && hi <= c && same_row(v, &m[i][lo..hi]), "values by range"),
            None => check(lo > hi || hi > c, "a range within the frame yields its values"),
        }
        {
            let ar: &[f32] = fr.as_ref();
            check(same_row(ar, &m[i]), "mutable view shows the same values");
            let bo: &[f32] = std::borrow::Borrow::borrow(&fr);
            check(same_row(bo, &m[i]), "mutable view shows the same values");
        }
        check(same_row(fr.as_mut(), &m[i]), "mutable view shows the same values");
        let bm: &mut [f32] = std::borrow::BorrowMut::borrow_mut(&mut fr);
        check(same_row(bm, &m[i]), "mutable view shows the same values");
        let f2 = Frame::from(fr);
        check(same_row(f2.as_slice(), &m[i]), "a read-only view of a mutable one");
    }
    check_rows(&b, &m, "looking changes nothing");
    cover("end");
}

/// Change one value by every road.
pub fn set_value(mc: usize, mf: usize) {
    let c = 1 + choose(mc);
    let f = 1 + choose(mf);
    let (mut b, s, mut m) = animation(c, f);
    let other = b.clone();
    let i = choose(f);
    let k = choose(c);
    let x = f32_any();
    let ch = other.joints().flat_map(|j| j.channels().to_vec()).nth(k).unwrap();
    let how = choose(9);
    {
        let mut it = b.frames_mut();
        let mut fr: FrameMut<'_> = match if flip() { it.nth(i) } else { it.nth_back(f - 1 - i) } {
            Some(fr) => fr,
            None => {
                check(false, "frame by position");
                return;
            }
        };
        let old = m[i][k];
        match how {
            0 => check(fr.try_set_motion(k, x).map(|o| o.to_bits()) == Ok(old.to_bits()), "setting returns the old value"),
            1 => check(fr.try_set_motion(&ch, x).map(|o| o.to_bits()) == Ok(old.to_bits()), "setting returns the old value"),
            2 => check(fr.try_set_motion(ch, x).map(|o| o.to_bits()) == Ok(old.to_bits()), "setting returns the old value"),
            3 => fr[k] = x,
            4 => fr[&ch] = x,
            5 => fr.as_mut_slice()[k] = x,
            6 => fr.as_mut()[k] = x,
            7 => match fr.get_mut(k) {
                Some(v) => *v = x,
                None => check(false, "value by position"),
            },
            _ => match fr.get_mut(k..k + 1) {
                Some(v) => v[0] = x,
                None => check(false, "values by range"),
            },
        }
    }
    m[i][k] = x;
    check_rows(&b, &m, "exactly the addressed value changes");
    check_rest(&b, &s);
    m[i][k] = s.vals[i * c + k];
    check_rows(&other, &m, "the copy keeps its values");
    cover("end");
}

/// Any position outside a frame.
pub fn set_outside(mc: usize) {
    let c = choose(mc + 1);
    let f = if c == 0 { 0 } else { 2 };
    let (mut b, s, m) = animation(c, f);
    let k = u64_() as usize;
    assume(k >= c);
    let x = f32_any();
    for mut fr in b.frames_mut() {
        match fr.try_set_motion(k, x) {
            Ok(_) => check(false, "a position outside is refused"),
            Err(e) => {
                let bad = matches!(e, errors::SetMotionError::BadChannel(q) if q == k);
                check(bad, "the error names the position");
                check(!e.to_string().is_empty(), "the error can be displayed");
                cover("refused");
            }
        }
        check(fr.get(k).is_none(), "a position outside yields nothing");
        check(fr.get_mut(k).is_none(), "a position outside yields nothing");
    }
    check_rows(&b, &m, "a refused value changes nothing");
    check_rest(&b, &s);
}

// ---------------------------------------------------------------- C19

fn build(s: &Spec) -> Bvh {
    loaded(from_bytes(&text(s)[..]))
}

/// Two animations that differ in at most one attribute.
pub fn equality() {
    let mut js = tree(3);
    chans(&mut js, &[0, 2]);
    let c: usize = js.iter().map(|j| j.ch.len()).sum();
    let f = if c == 0 { 0 } else { 2 };
    let mut s = Spec { js, frames: f, time: Duration::new(1, 5), vals: vec![] };
    for k in 0..c * f {
        s.vals.push(k as f32 * 0.5 - 1.0);
    }
    s.js[1].end = Some([1.0, 2.0, 3.0]);
    let mut t = s.clone();
    let at = choose(3);
    let axis = choose(3);
    let same_as;
    match choose(9) {
        0 => same_as = true,
        1 => {
            t.js[at].name = name_bytes(1);
            s.js[at].name = name_bytes(1);
            same_as = t.js[at].name == s.js[at].name;
        }
        2 => {
            t.js[at].off[axis] = f32_finite();
            s.js[at].off[axis] = f32_finite();
            same_as = t.js[at].off[axis] == s.js[at].off[axis];
        }
        3 => {
            t.js[1].end = Some([1.0, 2.0, 3.0]);
            let (x, y) = (f32_finite(), f32_finite());
            t.js[1].end.as_mut().unwrap()[axis] = x;
            s.js[1].end.as_mut().unwrap()[axis] = y;
            same_as = x == y;
        }
        4 => {
            let has = s.js[at].end.is_some();
            t.js[at].end = if has { None } else { Some([0.0; 3]) };
            same_as = false;
        }
        5 => {
            assume(s.js[at].ch.len() > 0);
            let k = choose(s.js[at].ch.len());
            let (x, y) = (choose(6), choose(6));
            s.js[at].ch[k] = x;
            t.js[at].ch[k] = y;
            same_as = x == y;
        }
        6 => {
            t.time = frame_time();
            s.time = frame_time();
            same_as = t.time == s.time;
        }
        7 => {
            assume(f > 0);
            let k = choose(c * f);
            t.vals[k] = f32_finite();
            s.vals[k] = f32_finite();
            same_as = t.vals[k] == s.vals[k];
        }
        _ => {
            assume(f > 0);
            t.frames = 1;
            t.vals.truncate(c);
            same_as = false;
        }
    }
    let (a, b) = (build(&s), build(&t));
    check((a == b) == same_as, "equal exactly when every attribute is equal");
    check((b == a) == same_as, "equality is symmetric");
    check((a != b) == !same_as, "inequality is the opposite of equality");
    check(a == a.clone(), "a copy equals its original");
    cover(if same_as { "equal" } else { "different" });
    // joints
    let mut joints = true;
    for (x, y) in a.joints().zip(b.joints()) {
        joints &= x == y;
    }
    let c9 = a.joints().count() == b.joints().count();
    check(!(joints && c9) || a.num_channels() == b.num_channels(), "equal joints have equal channels");
}

/// Trees of different shape, or channels split differently among the same joints, are different.
pub fn shapes() {
    let n = 2 + choose(3);
    let mut x = tree(n);
    let mut y = tree(n);
    let which = choose(3);
    if which == 1 {
        y = x.clone();
    }
    let same_tree = x.iter().zip(y.iter()).all(|(a, b)| a.parent == b.parent);
    let (p, q) = (choose(n), choose(n));
    if which > 0 {
        // two channels in one joint each
        x[p].ch = vec![0, 4];
        y[q].ch = vec![0, 4];
    }
    let same_as = same_tree && (which == 0 || p == q);
    let a = build(&spec(x, 0, Duration::new(0, 5)));
    let b = build(&spec(y, 0, Duration::new(0, 5)));
    check((a == b) == same_as, "equal exactly when the trees are equal");
    cover(if same_as { "equal" } else { "different" });
}

/// NaN values and negative zero compare like numbers, whatever they are.
pub fn values_compare() {
    let (mut a, _, _) = animation(2, 1);
    let mut b = a.clone();
    let (x, y) = (f32_any(), f32_any());
    let k = choose(2);
    a.frames_mut().next().unwrap()[k] = x;
    b.frames_mut().next().unwrap()[k] = y;
    check((a == b) == (x == y), "motion values compare as numbers");
    cover(if x == y { "equal" } else { "different" });
}

/// A copy and its original, edited independently.
pub fn copy() {
    let c = 1 + choose(2);
    let f = choose(3);
    let (mut a, s, m) = animation(c, f);
    let mut b = a.clone();
    check(a == b, "a copy equals its original");
    let swap = flip();
    let mut rows = m.clone();
    let mut t = s.clone();
    {
        let e = if swap { &mut a } else { &mut b };
        match choose(5) {
            0 => {
                let r = row(c);
                check(e.frame_cursor().try_insert_frame(&r).is_ok(), "a frame is inserted");
                rows.insert(0, r);
            }
            1 => {
                let ok = e.frame_cursor().remove_frame().is_ok();
                check(ok == (f > 0), "a frame is removed");
                if f > 0 {
                    rows.remove(0);
                }
            }
            2 => {
                e.extract_frames();
                rows.clear();
            }
            3 => {
                let d = frame_time();
                e.set_frame_time(d);
                t.time = d;
            }
            _ => {
                for (i, mut v) in e.frames_mut().enumerate() {
                    let x = f32_any();
                    v[0] = x;
                    rows[i][0] = x;
                }
            }
        }
    }
    let (o, e) = if swap { (&b, &a) } else { (&a, &b) };
    check_rows(o, &m, "the other one keeps its frames");
    check_rest(o, &s);
    check_rows(e, &rows, "the edited one has the new frames");
    check_rest(e, &t);
    let mut eq = rows.len() == m.len() && s.time == t.time;
    if eq {
        for i in 0..m.len() {
            for k in 0..c {
                eq &= rows[i][k] == m[i][k];
            }
        }
    }
    check((a == b) == eq, "equal exactly when the edit changed nothing");
    let d = Bvh::new();
    check(d == Bvh::default() && d.clone() == d, "empty animations are equal");
    check(a != d, "an animation differs from the empty one");
    cover("end");
}
