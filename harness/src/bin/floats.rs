//! Conformance of reading and writing floats with the Floats specification: literals around the
//! places where rounding changes printed by TLC with the float they are nearest to, recorded reads
//! and writes for TLC to validate, and floats written and read back.
use harness::number::{digits, read, text_for, written, Got, Lit, MODES};
use harness::report::{catch, hash, parallel, Args, Report};
use harness::rng::Rng;
use serdere::{Outliner, Serializer, Utf8Writer, Value};
use serdere_json::{TextSerializer, TextSerializerConfig};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Float {
    Single(u32),
    Double(u64),
}
use Float::*;

impl Float {
    fn name(self) -> &'static str {
        match self {
            Single(_) => "f32",
            Double(_) => "f64",
        }
    }
    fn parts(self) -> (bool, Vec<i64>, bool) {
        let (neg, e, m, w, bias) = match self {
            Single(b) => (b >> 31 == 1, (b >> 23 & 0xFF) as i64, (b & 0x7F_FFFF) as u64, 23, 127),
            Double(b) => (b >> 63 == 1, (b >> 52 & 0x7FF) as i64, b & ((1 << 52) - 1), 52, 1023),
        };
        if e == 2 * bias + 1 {
            return (neg, vec![], true);
        }
        let m = if e == 0 { m } else { m | 1 << w };
        let low = e.max(1) - bias - w;
        (neg, (0..=w).rev().filter(|i| m >> i & 1 == 1).map(|i| i + low).collect(), false)
    }
    fn fields(self) -> String {
        let (n, k, i) = self.parts();
        format!("\"xn\":{n},\"xk\":{k:?},\"xi\":{i}")
    }
    fn finite(self) -> bool {
        !self.parts().2
    }
    fn of(got: &Got) -> Option<Float> {
        match got {
            Got::F32(b) => Some(Single(*b)),
            Got::F64(b) => Some(Double(*b)),
            _ => None,
        }
    }
}

fn random_float(r: &mut Rng) -> Float {
    let edge = |r: &mut Rng, n: usize| -> u64 {
        // fractions with long runs of ones or zeros, or of few bits, or any
        let all = (1u64 << n) - 1;
        match r.below(6) {
            0 => 0,
            1 => all,
            2 => all & !((1 << r.below(n)) - 1),
            3 => 1 << r.below(n),
            _ => r.next() & all,
        }
    };
    if r.chance(50) {
        let e = match r.below(8) {
            0 => r.below(255) as u32,
            1 => *r.pick(&[0, 0, 1, 254]),
            _ => 127 - 40 + r.below(90) as u32,
        };
        Single((r.chance(30) as u32) << 31 | e << 23 | edge(r, 23) as u32)
    } else {
        let e = match r.below(8) {
            0 => r.below(2047) as u64,
            1 => *r.pick(&[0, 0, 1, 2046]),
            2 => 1023 - 200 + r.below(400) as u64,
            _ => 1023 - 70 + r.below(140) as u64,
        };
        Double((r.chance(30) as u64) << 63 | e << 52 | edge(r, 52))
    }
}

/// Floats that are short in decimal, too.
fn written_float(r: &mut Rng) -> Float {
    let x: f64 = match r.below(6) {
        0 => r.below(100000) as f64,
        1 => format!("{}e{}", r.below(1000), r.below(60) as i64 - 30).parse().unwrap(),
        2 => format!("1e{}", r.below(600) as i64 - 300).parse().unwrap(),
        _ => return random_float(r),
    };
    if r.chance(50) && (x as f32).is_finite() { Single((x as f32).to_bits()) } else { Double(x.to_bits()) }
}

fn trim(mut d: Vec<u8>, mut p: i64) -> (Vec<u8>, i64) {
    let z = d.iter().take_while(|x| **x == 0).count();
    d.drain(..z);
    while d.last() == Some(&0) {
        d.pop();
        p += 1;
    }
    (d, p)
}

/// The exact decimal expansion.
fn exact(x: f64) -> (Vec<u8>, i64) {
    let s = format!("{:.1100}", x.abs());
    let (i, f) = s.split_once('.').unwrap();
    let mut d = digits(i);
    d.extend(digits(f));
    trim(d, -(f.len() as i64))
}

/// Half of the sum of two decimals.
fn middle(a: (Vec<u8>, i64), b: (Vec<u8>, i64)) -> (Vec<u8>, i64) {
    let p = a.1.min(b.1) - 1;
    let fill = |(mut d, q): (Vec<u8>, i64)| {
        d.extend(vec![0; (q - p) as usize]);
        d.reverse();
        d
    };
    let (a, b) = (fill(a), fill(b));
    let mut sum = Vec::new();
    let mut carry = 0;
    for i in 0..a.len().max(b.len()) {
        let s = a.get(i).unwrap_or(&0) + b.get(i).unwrap_or(&0) + carry;
        sum.push(s % 10);
        carry = s / 10;
    }
    sum.push(carry);
    sum.reverse();
    let mut rem = 0;
    for x in &mut sum {
        let v = rem * 10 + *x;
        *x = v / 2;
        rem = v % 2;
    }
    assert!(rem == 0);
    trim(sum, p)
}

fn bump(d: &mut Vec<u8>) {
    for x in d.iter_mut().rev() {
        if *x < 9 {
            *x += 1;
            return;
        }
        *x = 0;
    }
    d.insert(0, 1);
}

/// A literal and the type to read it as.
fn random_lit(r: &mut Rng) -> (Lit, &'static str) {
    let x = random_float(r);
    let neg = r.chance(30);
    let ty = x.name();
    let (mut d, mut p) = match r.below(8) {
        // any digits
        0 | 1 => {
            let n = *r.pick(&[1, 2, 5, 8, 9, 10, 15, 17, 19, 20, 25, 31, 32, 33, 40, 64]);
            let d: Vec<u8> = (0..n).map(|_| r.below(10) as u8).collect();
            (d, r.below(90) as i64 - 60)
        }
        // the largest and smallest
        2 if r.chance(20) => {
            let p = if ty == "f32" { *r.pick(&[38, 37, 39, -45, -46, -38]) } else { *r.pick(&[308, 307, -324, -323, -325, -308]) };
            let n = r.range(1, 30);
            let mut d: Vec<u8> = (0..n).map(|_| r.below(10) as u8).collect();
            d[0] = r.range(1, 9) as u8;
            let l = d.len() as i64;
            (d, p + 1 - l)
        }
        _ => {
            // halfway to the next
            let (a, b) = match x {
                Single(b) => (f32::from_bits(b & !(1 << 31)) as f64, f32::from_bits((b & !(1 << 31)) + 1) as f64),
                Double(b) => (f64::from_bits(b & !(1 << 63)), f64::from_bits((b & !(1 << 63)) + 1)),
            };
            if b.is_finite() { middle(exact(a), exact(b)) } else { exact(a) }
        }
    };
    match r.below(6) {
        0 => {}
        1 => {
            // a little more
            let n = *r.pick(&[0, 1, 5, 20, 60]);
            d.extend(vec![0; n]);
            d.push(1);
            p -= n as i64 + 1;
        }
        2 if !d.is_empty() => {
            // a little less
            let n = *r.pick(&[1, 3, 20, 60]);
            *d.last_mut().unwrap() -= (*d.last().unwrap() > 0) as u8;
            d.extend(vec![9; n]);
            p -= n as i64;
        }
        _ => {
            let n = *r.pick(&[6, 7, 8, 9, 10, 15, 16, 17, 18, 19, 20, 21, 25]);
            if d.len() > n {
                p += (d.len() - n) as i64;
                d.truncate(n);
                if r.chance(50) {
                    bump(&mut d);
                }
            }
        }
    }
    let (mut d, p) = trim(d, p);
    if d.is_empty() {
        d.push(0);
    }
    let mut l = written(r, neg, &d, p);
    if r.chance(50) {
        // the shortest way
        let e = p + d.len() as i64 - 1;
        let frac = d[1..].to_vec();
        l = Lit { neg, int: vec![d[0]], frac, es: if e < 0 { "-" } else { "" }, exp: digits(&e.unsigned_abs().to_string()) };
    }
    // a double near a boundary of singles
    (l, if r.chance(15) { "f32" } else { ty })
}

/// How a float is written; the text around the literal is cut off.
const WAYS: [&str; 6] = ["to_str", "list", "object", "wrapped", "bytes", "indented"];

fn write(x: Float, way: &str) -> Result<String, String> {
    catch(|| -> Result<String, String> {
        macro_rules! put {
            ($s:expr) => {
                match x {
                    Single(b) => $s.put_f32(f32::from_bits(b)),
                    Double(b) => $s.put_f64(f64::from_bits(b)),
                }
            };
        }
        let cut = |t: String, a: &str, b: &str| {
            t.strip_prefix(a).and_then(|t| t.strip_suffix(b)).map(str::to_string).ok_or(format!("the text around it is wrong: {t}"))
        };
        let config = TextSerializerConfig { indent: (way == "indented").then_some("  ") };
        match way {
            "to_str" => Ok(match x {
                Single(b) => serdere_json::to_str(&f32::from_bits(b)),
                Double(b) => serdere_json::to_str(&f64::from_bits(b)),
            }),
            "bytes" => {
                let mut out = Vec::new();
                let mut w = Utf8Writer::new(&mut out);
                match x {
                    Single(b) => serdere_json::to_writer(&mut w, &f32::from_bits(b)),
                    Double(b) => serdere_json::to_writer(&mut w, &f64::from_bits(b)),
                }
                .map_err(|e| e.to_string())?;
                String::from_utf8(out).map_err(|e| e.to_string())
            }
            "wrapped" => {
                let mut s = TextSerializer::new(config, String::new());
                Value::with(&mut s, |v| match x {
                    Single(b) => v.put(&f32::from_bits(b)),
                    Double(b) => v.put(&f64::from_bits(b)),
                })
                .map_err(|_| "error".to_string())?;
                Ok(s.close())
            }
            "object" => {
                let mut s = TextSerializer::new(config, String::new());
                let r = s.open_struct(None).and_then(|_| s.push_field("k")).and_then(|_| put!(s)).and_then(|_| s.close_struct());
                r.map_err(|_| "error".to_string())?;
                cut(s.close(), "{ \"k\": ", " }")
            }
            _ => {
                let mut s = TextSerializer::new(config, String::new());
                let r = s.open_list_sized(2).and_then(|_| s.push_item()).and_then(|_| put!(s)).and_then(|_| s.push_item()).and_then(|_| put!(s)).and_then(|_| s.close_list());
                r.map_err(|_| "error".to_string())?;
                let t = s.close();
                let (a, b) = t.split_once(',').ok_or("no comma")?;
                let a = cut(a.to_string(), "[", "").map(|a| a.trim().to_string())?;
                let b = cut(b.to_string(), "", "]").map(|b| b.trim().to_string())?;
                if a != b {
                    return Err(format!("written in two ways: {a}, {b}"));
                }
                Ok(a)
            }
        }
    })
    .unwrap_or_else(|m| Err(format!("panicked: {m}")))
}

/// The literal a text is, if it is one.
fn parse(t: &str) -> Option<Lit> {
    let (neg, t) = t.strip_prefix('-').map_or((false, t), |t| (true, t));
    let (m, e) = t.split_once(['e', 'E']).map_or((t, None), |(m, e)| (m, Some(e)));
    let (int, frac) = m.split_once('.').map_or((m, None), |(i, f)| (i, Some(f)));
    let all = |s: &str| (!s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())).then(|| digits(s));
    let (es, exp) = match e {
        None => ("none", vec![]),
        Some(e) => {
            let (s, e) = if let Some(e) = e.strip_prefix('-') { ("-", e) } else if let Some(e) = e.strip_prefix('+') { ("+", e) } else { ("", e) };
            (s, all(e)?)
        }
    };
    Some(Lit { neg, int: all(int)?, frac: frac.map_or(Some(vec![]), all)?, es, exp })
}

fn main() {
    let args = Args::parse();
    let threads = 8;
    let rep = Report::new(&args, threads);
    let seed = args.seed();
    let scale = if args.thorough() { 12 } else { 1 };
    // the literals that were printed
    let vectors = args.lines("vectors");
    rep.count("vectors", vectors.len() as u64);
    parallel(&rep, threads, vectors.len().div_ceil(100), |t, j| {
        let mut r = Rng::new(seed ^ (j as u64) << 8);
        for v in &vectors[j * 100..vectors.len().min(j * 100 + 100)] {
            let (lit, ty) = (v.get("l").str(), v.get("t").str());
            rep.case(t, || lit.to_string());
            rep.distinct(hash(&format!("{lit} {ty}")));
            let ks: Vec<i64> = v.get("ks").arr().iter().map(|k| k.int()).collect();
            let want = (v.get("neg").bool(), ks, v.get("inf").bool());
            let ms: Vec<&str> = if args.thorough() { MODES.to_vec() } else { vec!["alone", "aside", *r.pick(&MODES)] };
            for m in ms {
                rep.count("reads", 1);
                let bad = match read(lit, m, ty, r.chance(50), r.next()) {
                    Err(e) => Some(e),
                    // too large: an error will do
                    Ok(Got::Err(_)) if want.2 => None,
                    Ok(got) => {
                        let got = Float::of(&got).map(Float::parts);
                        (got.as_ref() != Some(&want)).then(|| format!("the nearest is {want:?}, got {got:?}"))
                    }
                };
                if let Some(b) = bad {
                    rep.violation(&b, &format!("{} as {ty}: {}", harness::visit::short(lit), harness::visit::short(&text_for(m, lit))));
                }
            }
            rep.sample(|| format!("{lit} as {ty}"));
        }
    });
    let out = Mutex::new(Vec::new());
    // recorded reads
    let n: usize = args.get("reads").parse::<usize>().unwrap() * scale;
    parallel(&rep, threads, n.div_ceil(50), |t, j| {
        let mut r = Rng::new(seed.wrapping_mul(99_991) ^ (j as u64) << 16);
        for _ in 0..50 {
            let (l, ty) = random_lit(&mut r);
            let lit = l.text();
            rep.case(t, || lit.clone());
            rep.distinct(hash(&format!("{lit} {ty}")));
            let m = *r.pick(&MODES);
            let case = format!("{lit} as {ty}: {}", text_for(m, &lit));
            match read(&lit, m, ty, r.chance(50), r.next()) {
                Err(e) => rep.violation(&e, &case),
                // refused as too large: the specification has to call it infinite
                Ok(Got::Err(_)) => {
                    let x = format!("\"xn\":{},\"xk\":[],\"xi\":true", l.neg);
                    out.lock().unwrap().push((format!("{{\"kind\":\"read\",{},\"t\":\"{ty}\",{x}}}", l.fields()), format!("{case}: refused")));
                }
                Ok(g) => {
                    let x = Float::of(&g).unwrap();
                    rep.count("recorded_reads", 1);
                    out.lock().unwrap().push((format!("{{\"kind\":\"read\",{},\"t\":\"{ty}\",{}}}", l.fields(), x.fields()), format!("{case}: {g:x?}")));
                }
            }
        }
    });
    // floats written, recorded in part, and read back
    let n: usize = args.get("writes").parse::<usize>().unwrap() * scale;
    let back: usize = args.get("back").parse::<usize>().unwrap() * scale;
    let per = back.div_ceil(n).max(1);
    parallel(&rep, threads, n.div_ceil(50), |t, j| {
        let mut r = Rng::new(seed.wrapping_mul(77_003) ^ (j as u64) << 20);
        for k in 0..50 * per {
            let x = written_float(&mut r);
            if !x.finite() {
                continue;
            }
            let way = *r.pick(&WAYS);
            let case = format!("{x:x?} written ({way})");
            rep.case(t, || case.clone());
            rep.count("written", 1);
            let text = match write(x, way) {
                Ok(t) => t,
                Err(e) => {
                    rep.violation(&e, &case);
                    continue;
                }
            };
            let Some(l) = parse(&text) else {
                rep.violation(&format!("not a number literal: {text}"), &case);
                continue;
            };
            if k % per == 0 {
                rep.distinct(hash(&case));
                rep.count("recorded_writes", 1);
                out.lock().unwrap().push((format!("{{\"kind\":\"write\",{},\"t\":\"{}\",{}}}", l.fields(), x.name(), x.fields()), format!("{case}: {text}")));
            }
            let m = *r.pick(&MODES);
            match read(&text, m, x.name(), r.chance(50), r.next()) {
                Err(e) => rep.violation(&e, &format!("{case} as {text}, read back ({m})")),
                Ok(g) => {
                    if Float::of(&g) != Some(x) {
                        rep.violation(&format!("read back as {g:x?}"), &format!("{case} as {text}, read back ({m})"));
                    }
                }
            }
        }
    });
    let mut out = out.into_inner().unwrap();
    out.sort();
    out.dedup_by(|a, b| a.0 == b.0);
    if let Ok(dir) = std::env::var("VERIF_WORK") {
        let lines: String = out.iter().map(|l| format!("{}\n", l.0)).collect();
        std::fs::write(format!("{dir}/floats.ndjson"), lines).unwrap();
        let show: String = out.iter().map(|l| format!("{}\n", l.1.replace('\n', " "))).collect();
        std::fs::write(format!("{dir}/floats.show"), show).unwrap();
    }
    rep.finish();
}
