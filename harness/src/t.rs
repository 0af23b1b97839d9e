use crate::sym::*;
use bvh_anim::*;
pub fn channel() {
    let n = choose(12);
    let mut v = vec![];
    for _ in 0..n { v.push(byte()); }
    match ChannelType::from_bytes(&v[..]) {
        Ok(c) => { cover("ok"); check(c.as_str().as_bytes() == &v[..], "name"); }
        Err(e) => { check(e.into_inner() == v, "handed back"); }
    }
}
pub fn bytes(n: usize) {
    let mut v = vec![];
    for _ in 0..n { v.push(byte()); }
    match from_bytes(&v[..]) { Ok(_) => cover("ok"), Err(_) => cover("err") }
}
const P: &[u8] = b"HIERARCHY\nROOT a\n{\n OFFSET 0 0 0\n CHANNELS 1 Xposition\n End Site\n {\n OFFSET 1 2 3\n }\n}\nMOTION\nFrames: 1\nFrame Time: 0.5\n1.5\n";
pub fn window() {
    let mut v = P.to_vec();
    let at = choose(4) * 20;
    for i in 0..3 { v[at + i] = byte(); }
    match from_bytes(&v[..]) { Ok(b) => { cover("ok"); out(b.frames().len() as u64) } Err(e) => { cover("err"); out(e.line().unwrap_or(999) as u64); } }
}
pub fn write() {
    let mut v = b"HIERARCHY\nROOT a\n{\n OFFSET ".to_vec();
    let a = f32_finite(); let b = f32_finite();
    put_f32(a, &mut v); v.extend_from_slice(b" 0 "); put_f32(b, &mut v);
    v.extend_from_slice(b"\nCHANNELS 1 Xposition\n JOINT b\n{\nOFFSET 0 0 0\nCHANNELS 0\n End Site\n {\n OFFSET 1 2 3\n }\n }\n}\nMOTION\nFrames: 1\nFrame Time: 0.5\n");
    let c = f32_finite();
    put_f32(c, &mut v);
    v.push(b'\n');
    let bvh = from_bytes(&v[..]).unwrap();
    let s = bvh.to_string();
    let b2 = from_bytes(&s[..]).unwrap();
    check(bvh == b2, "round trip");
    check(b2.frames().next().unwrap().as_slice()[0].to_bits() == c.to_bits(), "value");
    for x in &s { out(*x as u64); }
    cover("end");
}

pub fn fromstr() {
    let x = f32_finite();
    let mut v = vec![];
    put_f32(x, &mut v);
    let y: f32 = std::str::from_utf8(&v).unwrap().parse().unwrap();
    check(x.to_bits() == y.to_bits(), "f32");
    let d = format!("{} {:?} {:.}", x as f64, x, x);
    let mut it = d.split(' ');
    let y: f32 = lexical::parse(it.next().unwrap()).unwrap();
    check(x.to_bits() == y.to_bits(), "f64 text");
    let y: f32 = lexical::parse(it.next().unwrap()).unwrap();
    check(x.to_bits() == y.to_bits(), "debug text");
    let y: f64 = lexical::parse(it.next().unwrap()).unwrap();
    check(x.to_bits() == (y as f32).to_bits(), "read wider");
    let r = format!("{:.3}", x);
    let y: f32 = lexical::parse(&r).unwrap();
    let z: f32 = lexical::parse(&r).unwrap();
    check(y.to_bits() == z.to_bits(), "same text same value");
    check(x.to_bits() == z.to_bits(), "lossy");
    cover("end");
}

// ---- language and library features that a change of the library may use; run by `tools/features.sh`.

use std::cell::{Cell, RefCell};
use std::collections::*;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock, RwLock};

fn syms(n: usize) -> Vec<u8> {
    (0..n).map(|_| byte()).collect()
}

pub fn maps() {
    let v = syms(3);
    let mut h: HashMap<Vec<u8>, usize> = HashMap::new();
    for (i, b) in v.iter().enumerate() {
        *h.entry(vec![*b; 2]).or_insert(0) += i + 1;
    }
    check(h.values().sum::<usize>() == 6, "hash map");
    let s: HashSet<u8> = v.iter().copied().collect();
    check(s.len() == h.len(), "hash set");
    cover("end");
}
pub fn trees() {
    let v = syms(4);
    let mut m = BTreeMap::new();
    for (i, b) in v.iter().enumerate() {
        m.insert(*b, i);
    }
    let k: Vec<u8> = m.keys().copied().collect();
    check(k.windows(2).all(|w| w[0] < w[1]), "ordered");
    let mut d: VecDeque<u8> = v.iter().copied().collect();
    d.rotate_left(1);
    d.push_front(0);
    check(d.len() == 5 && d.pop_back() == Some(v[0]), "deque");
    let mut h: BinaryHeap<u8> = v.iter().copied().collect();
    let mut p = 255;
    while let Some(x) = h.pop() {
        check(x <= p, "heap");
        p = x;
    }
    cover("end");
}
pub fn slices() {
    let v = syms(4);
    let mut a = v.clone();
    a.sort();
    let mut b = v.clone();
    b.sort_unstable_by(|x, y| x.cmp(y));
    check(a == b, "sorted alike");
    b.dedup();
    b.retain(|x| *x != 0);
    let mut c = v.clone();
    c.splice(1..2, [1, 2, 3].iter().copied());
    c.drain(..2);
    c.insert(1, 9);
    c.remove(0);
    c.swap_remove(0);
    c.truncate(3);
    c.resize(5, 1);
    c.reverse();
    c.swap(0, 1);
    c.rotate_right(2);
    c.copy_within(0..2, 1);
    c.fill(3);
    check(c.iter().all(|x| *x == 3), "filled");
    let s: usize = v.chunks(2).map(|c| c.len()).sum();
    check(s == 4, "chunks");
    let z: Vec<(u8, u8)> = v.iter().copied().zip(v.iter().rev().copied()).step_by(2).skip(1).collect();
    check(z.len() == 1, "zip");
    let t: u32 = v.iter().scan(0u32, |s, x| { *s += *x as u32; Some(*s) }).last().unwrap();
    check(t == v.iter().map(|x| u32::from(*x)).fold(0, |p, q| p + q), "scan");
    let mut it = v.iter().peekable();
    let mut n = 0;
    while let Some(x) = it.next() {
        if let Some(y) = it.peek() {
            if x == *y { n += 1 }
        }
    }
    check(n < 4, "peek");
    check(v.iter().flat_map(|x| std::iter::repeat(*x).take(2)).count() == 8, "flat map");
    check(v.iter().position(|x| *x == v[3]).is_some() && v.contains(&v[2]), "position");
    check(v.iter().max() >= v.iter().min(), "extremes");
    check(v.split(|x| *x == b' ').count() <= 5 && v.concat_len() == 4, "split");
    let _ = v.binary_search(&7);
    let w = [&v[..], &v[..]].concat();
    check(w.starts_with(&v) && w.ends_with(&v) && w.iter().rposition(|x| *x == v[3]) == Some(7), "twice");
    cover("end");
}
trait L { fn concat_len(&self) -> usize; }
impl L for Vec<u8> { fn concat_len(&self) -> usize { self.iter().map(|x| std::slice::from_ref(x)).collect::<Vec<_>>().concat().len() } }
pub fn strings() {
    let v = syms(3);
    let l = String::from_utf8_lossy(&v).into_owned();
    if let Ok(s) = std::str::from_utf8(&v) {
        check(l == s, "lossless");
        check(s.chars().count() <= 3, "chars");
        let _ = s.char_indices().rev().next();
        check(s.trim().len() <= 3, "trim");
        check(s.split_whitespace().count() <= 2, "words");
        check(s.lines().count() <= 3, "lines");
        let _ = s.to_ascii_uppercase();
        let _ = s.strip_prefix("a").map(|r| r.split_once(':'));
        let _ = s.find("ab");
        let _ = s.replace(' ', "__");
        let _ = s.parse::<u8>();
        let _ = s.parse::<i64>();
        let _ = s.bytes().all(|b| b.is_ascii_digit());
    } else {
        cover("not utf8");
    }
    cover("end");
}
pub fn cases() {
    let v = syms(2);
    if let Ok(s) = std::str::from_utf8(&v) {
        let _ = s.to_lowercase();
        let _ = s.chars().all(|c| c.is_alphanumeric() || c.is_whitespace());
        let _ = s.parse::<f32>();
        let _ = s.parse::<f64>();
        let _ = s.chars().filter_map(|c| c.to_digit(16)).sum::<u32>();
    }
    cover("end");
}
pub fn texts() {
    let n = choose(3) as u32 * 1000;
    let s = format!("{:>8}|{:<5}|{:^7}|{:08.3}|{:+}|{:#x}|{:e}|{:?}|{:5}|{}", n, "ab", 'c', 1.5f32, 3, n, 12.25f64, Some("x"), true, i128::MAX);
    check(s.contains("|ab   |   c   |0001.500|+3|0x"), "formatted");
    let x = u32_();
    let t = format!("{}", x);
    check(t.len() <= 10, "a number");
    cover("end");
}
pub fn floats() {
    let x = f32_finite();
    check(x.abs() >= 0.0, "abs");
    check(x.min(1.0) <= 1.0 && x.max(1.0) >= 1.0, "min max");
    check(x.clamp(-1.0, 1.0).abs() <= 1.0, "clamp");
    check(x.total_cmp(&x) == std::cmp::Ordering::Equal, "total order");
    check(x.is_normal() || x.classify() != std::num::FpCategory::Normal, "classify");
    check(!x.is_nan() && x.is_finite(), "finite");
    check(x.signum().abs() == 1.0 && x.copysign(1.0) >= 0.0, "sign");
    check((x as f64) as f32 == x, "wider");
    check(x as i32 as f64 <= 2147483647.0, "to int");
    cover("end");
}
pub fn rounds() {
    let x = f32_finite();
    check(x.floor() <= x && x.ceil() >= x, "floor");
    check((x.trunc() + x.fract() - x).abs() == 0.0, "parts");
    check((x.round() - x).abs() <= 0.5, "round");
    cover("end");
}
pub fn arith() {
    let x = f32_finite();
    check(x + 0.0 == x && x * 1.0 == x && x - 0.0 == x && x / 1.0 == x, "neutral");
    check((x * 2.0) * 0.5 == x || (x * 2.0).is_infinite(), "doubled");
    cover("end");
}
pub fn roots() {
    let x = f32_finite();
    assume(x >= 0.0 && x < 100.0);
    let _ = x.sqrt();
    let _ = x.powi(2);
    let _ = x.mul_add(2.0, 1.0);
    let _ = x.powf(1.5) + x.ln() + x.exp() + x.sin();
    let _ = x % 3.0;
    let _ = x.to_degrees().to_radians();
    cover("end");
}
pub fn integers() {
    let x = u32_();
    check(x.leading_zeros() <= 32 && x.count_ones() <= 32 && x.trailing_zeros() <= 32, "bits");
    check(x.swap_bytes().swap_bytes() == x && x.reverse_bits().reverse_bits() == x, "swapped");
    check(x.rotate_left(5).rotate_right(5) == x, "rotated");
    check(x.saturating_add(1) >= x && x.saturating_sub(1) <= x, "saturated");
    check(x.checked_add(1).is_none() == (x == u32::MAX), "checked");
    check(x.wrapping_mul(3).wrapping_sub(x.wrapping_mul(2)) == x, "wrapped");
    check(x.checked_next_power_of_two().map_or(true, |p| p >= x), "power");
    check((x as u64).pow(2) >= x as u64, "squared");
    check(x as u128 * 7 / 7 == x as u128, "wide");
    check(x.abs_diff(3) == (x as i64 - 3).abs() as u32, "difference");
    check((x as i32).rem_euclid(16) == (x & 15) as i32, "remainder");
    check(x.isqrt() <= 65535, "root");
    let (s, o) = x.overflowing_sub(7);
    check(o == (x < 7) && s == x.wrapping_sub(7), "overflowing");
    cover("end");
}
thread_local! { static T: Cell<usize> = Cell::new(3); static V: RefCell<Vec<u8>> = RefCell::new(vec![1]); }
static N: AtomicUsize = AtomicUsize::new(0);
static M: Mutex<Vec<u8>> = Mutex::new(Vec::new());
static O: OnceLock<Vec<u8>> = OnceLock::new();
pub fn shared() {
    let b = byte();
    T.with(|t| t.set(t.get() + 1));
    V.with(|v| v.borrow_mut().push(b));
    check(V.with(|v| v.borrow()[1]) == b, "thread local");
    N.fetch_add(1, Ordering::SeqCst);
    M.lock().unwrap().push(b);
    check(M.lock().unwrap().last() == Some(&b), "mutex");
    check(O.get_or_init(|| vec![b])[0] == b, "once");
    let r = RwLock::new(b);
    *r.write().unwrap() = b;
    check(*r.read().unwrap() == b, "lock");
    let a = Arc::new(vec![b]);
    let c = Arc::clone(&a);
    check(c[0] == b && Arc::strong_count(&a) == 2, "counted");
    let r = Rc::new(RefCell::new(b));
    check(*r.clone().borrow() == b, "rc");
    let f: Box<dyn Fn(u8) -> u8> = if b > 3 { Box::new(|x| x) } else { Box::new(move |_| b) };
    check(f(b) == b, "closure");
    let c: std::borrow::Cow<'_, [u8]> = if b > 9 { vec![b].into() } else { (&[b][..]).to_vec().into() };
    check(c[0] == b, "cow");
    let x: Box<dyn std::any::Any> = Box::new(b);
    check(x.downcast_ref::<u8>() == Some(&b), "any");
    cover("end");
}
pub fn prints() {
    let b = choose(3);
    println!("seen {}", b);
    eprintln!("seen {}", b);
    print!("{:?}", Some(b));
    cover("end");
}
pub fn catches() {
    let b = byte();
    let r = std::panic::catch_unwind(|| if b == 3 { panic!("three") } else { b });
    check(r.is_err() == (b == 3), "caught");
    cover("end");
}
pub fn outside() {
    let _ = std::env::var("BVH_NOTHING").is_ok();
    let t = std::time::Instant::now();
    check(t.elapsed().as_secs() < 1000, "clock");
    let _ = std::time::SystemTime::now();
    let _ = std::thread::current().id();
    cover("end");
}
pub fn ios() {
    use std::io::*;
    let v = syms(3);
    let mut r = BufReader::with_capacity(2, &v[..]);
    let mut l = vec![];
    r.read_until(b'\n', &mut l).unwrap();
    let mut rest = vec![];
    r.read_to_end(&mut rest).unwrap();
    check(l.len() + rest.len() == 3, "all read");
    let mut w = BufWriter::with_capacity(2, vec![]);
    for b in &v { w.write_all(&[*b]).unwrap() }
    w.write_all(b"xyz").unwrap();
    write!(w, "{}", 5).unwrap();
    check(w.into_inner().unwrap().len() == 7, "all written");
    let mut lw = LineWriter::new(vec![]);
    lw.write_all(&v).unwrap();
    lw.flush().unwrap();
    let n = Cursor::new(&v).split(b'\n').map(|x| x.unwrap().len()).sum::<usize>();
    check(n <= 3, "split");
    let e = Error::new(ErrorKind::Other, "text");
    check(e.to_string() == "text" && e.kind() == ErrorKind::Other, "error");
    let mut c = v.chain(&b"ab"[..]).take(4);
    let mut s = vec![];
    c.read_to_end(&mut s).unwrap();
    check(s.len() == 4, "chained");
    cover("end");
}
