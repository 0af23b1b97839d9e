//! C18: skeletons written in source code.
use crate::doc::*;
use crate::sym::*;
use bvh_anim::*;
#[cfg(feature = "builder")]
use std::time::Duration;

#[cfg(feature = "builder")]
fn put(b: &mut BvhLiteralBuilder, s: &Spec, i: usize) {
    let j = &s.js[i];
    let name = match std::str::from_utf8(&j.name) {
        Ok(n) => n,
        Err(_) => return,
    };
    if i == 0 {
        b.push_root(name);
    } else {
        b.push_joint(name);
    }
    b.current_depth += 1;
    b.push_joint_offset(j.off.into(), false);
    for k in &j.ch {
        b.push_channel(TYPES[*k]);
    }
    for k in s.children(i) {
        put(b, s, k);
    }
    if let Some(e) = j.end {
        b.push_joint_offset(e.into(), true);
    }
    b.current_depth -= 1;
}

/// The operations a literal of this skeleton performs.
#[cfg(feature = "builder")]
pub fn build(s: &Spec) -> Bvh {
    let mut b = BvhLiteralBuilder::default();
    put(&mut b, s, 0);
    b.set_num_channels();
    b.bvh.set_frame_time(s.time);
    let mut a = b.bvh;
    let c = s.channels();
    if c > 0 && s.frames > 0 {
        let r = a.frame_cursor().try_insert_frames(s.vals.chunks(c)).is_ok();
        check(r, "frames of the right length are inserted");
    }
    a
}

/// Built and loaded, the animations are the same.
#[cfg(feature = "builder")]
pub fn compare(s: &Spec) -> Bvh {
    let a = build(s);
    let l = loaded(from_bytes(&text(s)[..]));
    check_same(&a, &l, "a literal is the same as the text");
    check(a == l && l == a, "a literal equals the text");
    check_skeleton(&a, s);
    check_motion(&a, s);
    check_tree(&a);
    check_channels(&a);
    // the tree as navigation shows it
    let (mut x, mut y) = (a.joints(), l.joints());
    while let (Some(p), Some(q)) = (x.next(), y.next()) {
        let (mut c, mut d) = (p.children(), q.children());
        loop {
            match (c.next(), d.next()) {
                (None, None) => break,
                (Some(e), Some(f)) => check(e.index() == f.index(), "the same children"),
                _ => {
                    check(false, "the same children");
                    break;
                }
            }
        }
    }
    cover("compared");
    a
}

#[cfg(feature = "builder")]
fn leaf_ends(js: &mut Vec<J>) {
    for i in 0..js.len() {
        let leaf = !js.iter().any(|j| j.parent == Some(i));
        if leaf && flip() {
            js[i].end = Some(v3());
        }
    }
}

/// Every shape, with any offsets and end sites.
#[cfg(feature = "builder")]
pub fn shapes(max: usize, counts: &[usize]) {
    let n = 1 + choose(max);
    let mut js = tree(n);
    leaf_ends(&mut js);
    chans(&mut js, counts);
    offsets(&mut js);
    compare(&spec(js, 0, Duration::new(0, 5)));
}

/// Channel lists of any types.
#[cfg(feature = "builder")]
pub fn lists(max: usize) {
    let mut js = tree(3);
    let at = choose(3);
    for _ in 0..choose(max + 1) {
        js[at].ch.push(choose(6));
    }
    js[(at + 1) % 3].ch = vec![2, 2, 5];
    compare(&spec(js, 0, Duration::new(0, 5)));
}

/// Long channel lists.
#[cfg(feature = "builder")]
pub fn lists_long() {
    let mut js = tree(3);
    let at = choose(3);
    let k = choose(6);
    let d = choose(6);
    for i in 0..choose(20) {
        js[at].ch.push((k + i * d) % 6);
    }
    js[(at + 1) % 3].ch = vec![2, 2, 5];
    compare(&spec(js, 1, Duration::new(0, 5)));
}

/// Frames and any frame time.
#[cfg(feature = "builder")]
pub fn motion(max: usize) {
    let mut js = tree(2);
    js[0].ch = vec![3];
    js[1].ch = vec![0, 1];
    leaf_ends(&mut js);
    compare(&spec(js, choose(max + 1), frame_time()));
}

/// Long names, deep and wide trees.
#[cfg(feature = "builder")]
pub fn large() {
    let mut js = vec![J::new(b"r", None, 0)];
    let deep = flip();
    for i in 1..10 {
        let mut name = jname(i);
        name.extend_from_slice(b"_a_name_longer_than_any_inline_buffer_may_hold");
        js.push(if deep { J::new(&name, Some(i - 1), i) } else { J::new(&name, Some(0), 1) });
        js[i].ch = (0..i).map(|k| k % 6).collect();
    }
    offsets(&mut js);
    compare(&spec(js, 1, Duration::new(0, 5)));
}

/// What was built is written and loaded alike (C06).
#[cfg(feature = "builder")]
pub fn written(max: usize) {
    let n = 1 + choose(max);
    let mut js = tree(n);
    leaf_ends(&mut js);
    chans(&mut js, &[0, 2]);
    offsets(&mut js);
    let a = build(&spec(js, 0, frame_time()));
    crate::write::round_trip(&a);
}

/// Compiled literals against their text.
#[cfg(feature = "literals")]
pub fn literals() {
    use crate::literals::*;
    let i = choose(COUNT);
    let a = literal(i);
    let l = loaded(from_bytes(TEXT[i]));
    check_same(&a, &l, "a literal is the same as the text");
    check(a == l, "a literal equals the text");
    check_tree(&a);
    check_channels(&a);
    let t: Bvh = loaded(from_bytes(&a.to_string()[..]));
    check_same(&t, &a, "a literal, written and loaded");
    cover("compared");
}

/// The empty forms, and a frame time alone.
#[cfg(feature = "literals")]
pub fn empties() {
    let e = Bvh::new();
    let d = Bvh::default();
    let a = match choose(4) {
        0 => bvh! {},
        1 => bvh! { HIERARCHY MOTION },
        2 => bvh! { HIERARCHY MOTION Frames: 0 },
        _ => bvh! { HIERARCHY MOTION Frames: 0 Frame Time: 0.0 },
    };
    check_same(&a, &e, "an empty literal is empty");
    check(a == e && a == d && e == d, "an empty literal is empty");
    let t = bvh! { HIERARCHY MOTION Frames: 0 Frame Time: 0.25 };
    check(t.frame_time().as_millis() == 250 && t.joints().count() == 0, "a frame time alone");
    cover("end");
}
