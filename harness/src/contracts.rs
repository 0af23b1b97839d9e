//! The engine keeps the text of a symbolic number abstract: it assumes what is tested here of the
//! library's number writer (the standard library) and reader (`lexical`), for the values the
//! harnesses use. One edge or random value breaking any of this makes the abstraction unsound
//! and is reported.
use std::time::Duration;

pub fn contracts(seed: u64, n: u64) -> i32 {
    let mut s = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
    let mut rnd = move || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        s.wrapping_mul(0x2545_f491_4f6c_dd1d)
    };
    let mut bad = 0;
    let mut fail = |what: &str, x: String| {
        bad += 1;
        if bad < 20 {
            println!("contract {}: {}", what, x);
        }
    };
    for i in 0..n {
        let r = rnd();
        // f32
        let b = match i % 4 {
            0 => r as u32,
            1 => (r as u32 & 0x8000_0000) | (((r >> 40) as u32 % 40 + 107) << 23) | (r as u32 & 0x7f_ffff),
            2 => ((r % 200_000_000) as f32 / 1000.0).to_bits(),
            _ => crate::doc::HARD[(r % 16) as usize] ^ ((r >> 32) as u32 & 1),
        };
        let x = f32::from_bits(b);
        if x.is_finite() {
            let t = x.to_string();
            match lexical::parse::<f32, _>(t.as_bytes()) {
                Ok(y) if y.to_bits() == b => {}
                e => fail("f32 reads as written", format!("{} {:?}", t, e)),
            }
            if t.parse::<f32>().map(|y| y.to_bits()) != Ok(b) {
                fail("f32 reads as written (std)", t.clone());
            }
            let w = (x as f64).to_string();
            match lexical::parse::<f32, _>(w.as_bytes()) {
                Ok(y) if y.to_bits() == b => {}
                e => fail("f32 reads as its f64 was written", format!("{} {:?}", w, e)),
            }
            for p in [0usize, 1, 3, 6] {
                let w = format!("{:.*}", p, x);
                match lexical::parse::<f32, _>(w.as_bytes()) {
                    Ok(y) if y.is_finite() => {}
                    e => fail("rounded f32 reads as a finite number", format!("{} {:?}", w, e)),
                }
            }
            if t.len() > 48 + 20 || t.bytes().any(|c| c.is_ascii_whitespace() || c == b':') {
                fail("f32 text is one word", t);
            }
        }
        // f64
        let x = f64::from_bits(if i % 2 == 0 { r } else { ((r % 1_000_000_000_000_000) as f64 / 1e9).to_bits() });
        if x.is_finite() {
            let t = x.to_string();
            match lexical::parse::<f64, _>(t.as_bytes()) {
                Ok(y) if y.to_bits() == x.to_bits() => {}
                e => fail("f64 reads as written", format!("{} {:?}", t, e)),
            }
        }
        // counts
        let k = (r >> (r % 64)) as usize;
        match lexical::parse::<usize, _>(k.to_string().as_bytes()) {
            Ok(y) if y == k => {}
            e => fail("usize reads as written", format!("{} {:?}", k, e)),
        }
        // durations
        let d = Duration::new(r % [1_000_000, 10, 1, 2, 1000][(i % 5) as usize], (rnd() % 1_000_000_000) as u32);
        let f = d.as_secs_f64();
        if Duration::try_from_secs_f64(f).ok() != Some(d) {
            fail("a duration is kept by its seconds", format!("{:?}", d));
        }
        for p in [0usize, 1, 3, 6] {
            let w = format!("{:.*}", p, f);
            match lexical::parse::<f64, _>(w.as_bytes()) {
                Ok(y) if y >= 0.0 && !y.is_sign_negative() && y <= (1u64 << 60) as f64 => {}
                e => fail("a rounded duration is no negative number", format!("{} {:?}", w, e)),
            }
        }
    }
    println!("contracts {} values, {} failures", n, bad);
    (bad > 0) as i32
}
