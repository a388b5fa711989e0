//! Conformance of number reading with the Numbers specification: literals printed by TLC with the
//! answers it allows, and recorded reads of random literals for TLC to validate.
use harness::number::{digits, read, text_for, written, Got, Lit, MODES};
use harness::report::{hash, parallel, Args, Report};
use harness::rng::Rng;
use std::sync::Mutex;

const INTS: [&str; 10] = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"];
const FLOATS: [&str; 2] = ["f32", "f64"];

fn power64(k: i64) -> f64 {
    if k >= -1022 {
        f64::from_bits(((k + 1023) as u64) << 52)
    } else {
        f64::from_bits(1u64 << (k + 1074))
    }
}

fn power32(k: i64) -> f32 {
    if k >= -126 {
        f32::from_bits(((k + 127) as u32) << 23)
    } else {
        f32::from_bits(1u32 << (k + 149))
    }
}

fn f64_of(neg: bool, ks: &[i64]) -> u64 {
    let x = ks.iter().map(|k| power64(*k)).sum::<f64>();
    (x.abs().to_bits()) | (neg as u64) << 63
}

fn f32_of(neg: bool, ks: &[i64]) -> u32 {
    let x = ks.iter().map(|k| power32(*k)).sum::<f32>();
    x.abs().to_bits() | (neg as u32) << 31
}

/// The exponents of the powers of two a float is the sum of.
fn powers64(bits: u64) -> Vec<i64> {
    let e = ((bits >> 52) & 0x7FF) as i64;
    let m = bits & ((1 << 52) - 1);
    let (m, low) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    (0..53).rev().filter(|i| m >> i & 1 == 1).map(|i| i + low).collect()
}

fn random_int_lit(r: &mut Rng) -> Lit {
    let bits = *r.pick(&[7usize, 8, 15, 16, 31, 32, 63, 64, 127, 128]);
    let neg = r.chance(40);
    let magnitude: u128 = match r.below(6) {
        0 => r.below(400) as u128,
        1 | 2 => {
            // around a power of two
            let top = if bits == 128 { 0u128 } else { 1u128 << bits };
            top.wrapping_add(r.below(5) as u128).wrapping_sub(2)
        }
        3 => 10u128.pow(r.below(39) as u32) * r.range(1, 3) as u128,
        _ => {
            let x = (r.next() as u128) << 64 | r.next() as u128;
            x >> r.below(128)
        }
    };
    let mut d = digits(&magnitude.to_string());
    if magnitude > 0 && r.chance(5) {
        d.push(r.below(10) as u8);
    }
    match r.below(10) {
        0..=2 => Lit { neg, int: d, frac: vec![], es: "none", exp: vec![] },
        3..=5 => {
            // factor out trailing zeros, or do not
            let z = d.iter().rev().take_while(|x| **x == 0).count().min(d.len() - 1);
            let k = if z > 0 && r.chance(70) { r.range(0, z) } else { 0 };
            let extra = if r.chance(30) { r.below(4) } else { 0 };
            let mut exp = vec![0; if r.chance(20) { r.range(1, 3) } else { 0 }];
            exp.extend(digits(&(k + extra).to_string()));
            Lit { neg, int: d[..d.len() - k].to_vec(), frac: vec![], es: *r.pick(&["", "+"]), exp }
        }
        6..=8 => {
            let z = d.iter().rev().take_while(|x| **x == 0).count().min(d.len() - 1);
            let n = d.len() - z;
            let n = n.max(1);
            let (d, p) = (d[..n].to_vec(), z as i64);
            let p = if r.chance(10) { p + r.range(0, 3) as i64 - 2 } else { p };
            let mut l = written(r, neg, &d, p);
            l.neg = neg;
            l
        }
        _ => {
            let n = r.range(1, 30);
            let mut int: Vec<u8> = (0..n).map(|_| r.below(10) as u8).collect();
            if int.len() > 1 && int[0] == 0 {
                int[0] = 1;
            }
            let frac: Vec<u8> = (0..r.below(6)).map(|_| r.below(10) as u8).collect();
            Lit { neg, int, frac, es: *r.pick(&["", "+", "-"]), exp: digits(&r.below(45).to_string()) }
        }
    }
}

fn random_float_lit(r: &mut Rng) -> (Lit, Vec<&'static str>) {
    let neg = r.chance(40);
    let single = r.chance(50);
    let wide = r.chance(12);
    let x = if single {
        let e = if wide { r.below(255) } else { 127 - 30 + r.below(60) } as u32;
        let m = r.next() as u32 & 0x7F_FFFF;
        let m = if r.chance(50) { m & !((1u32 << r.below(24)) - 1) } else { m };
        f32::from_bits(e << 23 | m & 0x7F_FFFF) as f64
    } else {
        let e = if wide { r.below(2047) } else { 1023 - 60 + r.below(120) } as u64;
        let m = r.next() & ((1 << 52) - 1);
        let m = if r.chance(50) { m & !((1u64 << r.below(53)) - 1) } else { m };
        f64::from_bits(e << 52 | m & ((1 << 52) - 1))
    };
    let x = if r.chance(4) { 0.0 } else if r.chance(15) { r.below(100000) as f64 } else { x };
    // the exact decimal expansion
    let s = format!("{:.1100}", x);
    let (i, f) = s.split_once('.').unwrap();
    let mut d = digits(i);
    d.extend(digits(f));
    let mut p = -(f.len() as i64);
    while d.len() > 1 && d[0] == 0 {
        d.remove(0);
    }
    while d.len() > 1 && *d.last().unwrap() == 0 {
        d.pop();
        p += 1;
    }
    if d == [0] {
        p = r.below(50) as i64 - 25;
    }
    let l = written(r, neg, &d, p);
    let mut ts = vec!["f64"];
    if x as f32 as f64 == x {
        ts.push("f32");
    }
    (l, ts)
}

fn main() {
    let args = Args::parse();
    let threads = 8;
    let rep = Report::new(&args, threads);
    let floats = args.get("prop") == "C07";
    // only what is said of the numbers that are rejected
    let messages = args.get("prop") == "C26";
    let seed = args.seed();
    let vectors = args.lines("vectors");
    let modes: usize = if args.thorough() { MODES.len() } else { 4 };
    rep.count("vectors", vectors.len() as u64);
    let jobs = vectors.len().div_ceil(100);
    parallel(&rep, threads, jobs, |t, j| {
        let mut r = Rng::new(seed ^ (j as u64) << 8);
        for v in &vectors[j * 100..vectors.len().min(j * 100 + 100)] {
            let lit = v.get("l").str();
            rep.case(t, || lit.to_string());
            rep.distinct(hash(lit));
            let types: &[&str] = if floats { &FLOATS } else { &INTS };
            for (ty, verdict) in types.iter().zip(v.get("t").str().chars()) {
                if floats && verdict != 'a' {
                    continue;
                }
                // always alone and set aside; the others in turn
                let mut ms = vec!["alone", "aside"];
                while ms.len() < modes {
                    if args.thorough() {
                        ms = MODES.to_vec();
                    } else {
                        ms.push(r.pick(&MODES));
                    }
                }
                for m in ms {
                    rep.count("reads", 1);
                    let got = read(lit, m, ty, r.chance(50), r.next());
                    let bad = match &got {
                        Ok(Got::Err(e)) if messages && e.starts_with("not refused") => Some(e.clone()),
                        _ if messages => None,
                        Err(e) => Some(e.clone()),
                        Ok(got) if floats => {
                            let ks: Vec<i64> = v.get("ks").arr().iter().map(|k| k.int()).collect();
                            let neg = v.get("neg").bool();
                            let want = if *ty == "f32" { Got::F32(f32_of(neg, &ks)) } else { Got::F64(f64_of(neg, &ks)) };
                            (*got != want).then(|| format!("expected {want:x?}, got {got:x?}"))
                        }
                        Ok(got) => match (verdict, got) {
                            ('a' | 'e', Got::Int(s)) => (s != v.get("v").str()).then(|| format!("expected {}, got {s}", v.get("v").str())),
                            ('r' | 'e', Got::Err(_)) => None,
                            ('a', Got::Err(e)) => Some(format!("expected {}, got error {e}", v.get("v").str())),
                            (_, got) => Some(format!("expected an error, got {got:?}")),
                        },
                    };
                    if let Some(b) = bad {
                        rep.violation(&b, &format!("{} as {ty}: {}", harness::visit::short(lit), harness::visit::short(&text_for(m, lit))));
                    }
                }
            }
            rep.sample(|| format!("{lit}: {}", v.get("t").str()));
        }
    });
    // recorded reads
    let n: usize = args.get("reads").parse().unwrap();
    let n = if args.thorough() { n * 20 } else { n };
    let out = Mutex::new(Vec::new());
    parallel(&rep, threads, n.div_ceil(100), |t, j| {
        let mut r = Rng::new(seed.wrapping_mul(7_777_777) ^ (j as u64) << 16);
        for _ in 0..100 {
            let (l, types) = if floats {
                random_float_lit(&mut r)
            } else {
                let l = random_int_lit(&mut r);
                let near = [*r.pick(&INTS), *r.pick(&INTS), *r.pick(&INTS)];
                (l, near.to_vec())
            };
            let lit = l.text();
            rep.case(t, || lit.clone());
            rep.distinct(hash(&lit));
            for ty in types {
                let m = *r.pick(&MODES);
                let case = format!("{lit} as {ty}: {}", text_for(m, &lit));
                let res = match read(&lit, m, ty, r.chance(50), r.next()) {
                    Err(_) if messages => continue,
                    Ok(Got::Err(e)) if messages && e.starts_with("not refused") => {
                        rep.violation(&e, &case);
                        continue;
                    }
                    Err(e) => {
                        rep.violation(&e, &case);
                        continue;
                    }
                    Ok(Got::Err(_)) => "\"ok\":false,\"rn\":false,\"rd\":[]".to_string(),
                    Ok(Got::Int(s)) => {
                        let d = s.trim_start_matches('-');
                        let d = if d == "0" { vec![] } else { digits(d) };
                        format!("\"ok\":true,\"rn\":{},\"rd\":{:?}", s.starts_with('-'), d)
                    }
                    Ok(g) => {
                        let x = match g {
                            Got::F32(b) => f32::from_bits(b) as f64,
                            Got::F64(b) => f64::from_bits(b),
                            _ => unreachable!(),
                        };
                        if !x.is_finite() {
                            rep.violation(&format!("got {x}"), &case);
                            continue;
                        }
                        format!("\"ok\":true,\"rn\":{},\"rd\":{:?}", x.is_sign_negative(), powers64(x.to_bits()))
                    }
                };
                rep.count("recorded_reads", 1);
                let line = format!("{{{},\"t\":\"{ty}\",{res}}}", l.fields());
                out.lock().unwrap().push((line, format!("{case}: {res}")));
            }
        }
    });
    let mut out = out.into_inner().unwrap();
    out.sort();
    out.dedup_by(|a, b| a.0 == b.0);
    if let Ok(dir) = std::env::var("VERIF_WORK") {
        let lines: String = out.iter().map(|l| format!("{}\n", l.0)).collect();
        std::fs::write(format!("{dir}/reads.ndjson"), lines).unwrap();
        let show: String = out.iter().map(|l| format!("{}\n", l.1.replace('\n', " "))).collect();
        std::fs::write(format!("{dir}/reads.show"), show).unwrap();
    }
    rep.finish();
}
