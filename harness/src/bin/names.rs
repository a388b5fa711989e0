//! Conformance of name maps with the NameMap specification.
use harness::json::J;
use harness::report::{catch, hash, parallel, Args, Report};
use harness::rng::Rng;
use serdere::{FixedNameMap, NameMap};
use std::collections::HashMap;
use std::sync::Mutex;

fn leak(s: &str) -> &'static str {
    static NAMES: Mutex<Option<HashMap<String, &'static str>>> = Mutex::new(None);
    let mut g = NAMES.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(s) = m.get(s) {
        return s;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    m.insert(s.to_string(), l);
    l
}

/// Builds the map of the entries, if there is a size for it.
macro_rules! sizes {
    ($($n:literal)*) => {
        const SIZES: &[usize] = &[$($n),*];
        fn with_map<R>(entries: &[(&'static str, usize)], f: impl FnOnce(&NameMap<usize>) -> R) -> R {
            match entries.len() {
                $($n => {
                    let fixed = FixedNameMap::<usize, $n>::new(entries.try_into().unwrap());
                    f(fixed.unfix())
                })*
                n => panic!("no map of size {n}"),
            }
        }
    };
}
sizes!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 23 24 25 30 31 32 33 40 50 63 64 65 100 127 128 129 200 255 256 257 300 511 600);

/// Feeds pieces of bytes, by the three ways there are to feed where they apply.
fn lookup(map: &NameMap<usize>, pieces: &[Vec<u8>], way: usize) -> Option<usize> {
    let mut l = map.lookup();
    for (i, p) in pieces.iter().enumerate() {
        // three ways for all the pieces, or one after the other
        let way = if way < 3 { way } else { i };
        match (way % 3, std::str::from_utf8(p)) {
            (1, Ok(s)) => l.write_str(s),
            (2, Ok(s)) => s.chars().for_each(|c| l.write_char(c)),
            _ => l.write_bytes(p),
        }
    }
    l.result().copied()
}

/// A way to cut bytes into pieces; bit i of mask cuts after byte i.
fn cut(bytes: &[u8], mask: u64) -> Vec<Vec<u8>> {
    let mut out = vec![Vec::new()];
    for (i, b) in bytes.iter().enumerate() {
        out.last_mut().unwrap().push(*b);
        if mask >> (i % 64) & 1 == 1 {
            out.push(Vec::new());
        }
    }
    out
}

/// Puts empty pieces before, between and after the pieces.
fn pad(pieces: Vec<Vec<u8>>, r: &mut Rng) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    for p in pieces {
        for _ in 0..r.below(3) / 2 {
            out.push(Vec::new());
        }
        out.push(p);
    }
    for _ in 0..r.below(3) {
        out.push(Vec::new());
    }
    out
}

/// Words that stand for the letters 1 and 2: of the same length and distinct.
const CODES: [(&str, &str); 10] = [
    ("a", "b"),
    ("b", "a"),
    ("\0", "\u{1}"),
    ("é", "è"),
    ("日", "旦"),
    ("\u{10FFFF}", "\u{10000}"),
    ("ab", "aa"),
    ("ab", "ba"),
    ("~", "\u{7f}"),
    ("z\u{7ff}", "\u{800}"),
];

fn check_entries(map: &NameMap<usize>, entries: &[(&'static str, usize)]) -> Option<String> {
    let mut a: Vec<(&str, usize)> = map.entries().map(|(n, v)| (n, *v)).collect();
    let mut b: Vec<(&str, usize)> = entries.to_vec();
    a.sort();
    b.sort();
    if a != b {
        return Some(format!("entries() gives {a:?}"));
    }
    if map.size() != entries.len() {
        return Some(format!("size() gives {}", map.size()));
    }
    None
}

fn main() {
    let args = Args::parse();
    let threads = 8;
    let rep = Report::new(&args, threads);
    let seed = args.seed();
    let thorough = args.thorough();
    let vectors = args.lines("maps");
    rep.count("maps_printed_by_spec", vectors.len() as u64);

    // every small map in every order, every input, every way to cut it
    parallel(&rep, threads, vectors.len().div_ceil(64), |t, j| {
        let mut r = Rng::new(seed ^ (j as u64) << 20);
        for v in &vectors[j * 64..vectors.len().min(j * 64 + 64)] {
            rep.beat(t);
            let codes: Vec<usize> = if thorough {
                (0..CODES.len()).collect()
            } else {
                vec![r.below(CODES.len()), r.below(CODES.len())]
            };
            for c in codes {
                let spell = |w: &J| -> String {
                    w.arr().iter().map(|x| if x.int() == 1 { CODES[c].0 } else { CODES[c].1 }).collect()
                };
                // the values are not the positions, so that these are not mixed up
                let entries: Vec<(&'static str, usize)> = v
                    .get("map")
                    .arr()
                    .iter()
                    .enumerate()
                    .map(|(i, n)| (leak(&spell(n)), (i * 7 + 3) % 11 + 100))
                    .collect();
                let case = || format!("{entries:?}");
                rep.case(t, case);
                rep.distinct(hash(&format!("{entries:?}")));
                let bad = catch(|| {
                    with_map(&entries, |map| {
                        if let Some(m) = check_entries(map, &entries) {
                            return Some(m);
                        }
                        for g in v.get("got").arr() {
                            let input = spell(g.get("x"));
                            let owed = match g.get("r").int() {
                                0 => None,
                                i => Some(entries[i as usize - 1].1),
                            };
                            if map.get(&input).copied() != owed {
                                return Some(format!("get({input:?}) gives {:?}, not {owed:?}", map.get(&input)));
                            }
                            let n = input.len();
                            for k in 0..if n <= 6 { 1u64 << n } else { 8 } {
                                let mask = if n <= 6 { k } else { r.next() };
                                let mut pieces = cut(input.as_bytes(), mask);
                                if r.chance(40) {
                                    pieces = pad(pieces, &mut r);
                                }
                                let way = r.below(4);
                                let got = lookup(map, &pieces, way);
                                if got != owed {
                                    return Some(format!("feeding {pieces:?} gives {got:?}, not {owed:?}"));
                                }
                                rep.count("lookups", 0);
                            }
                        }
                        None
                    })
                });
                match bad {
                    Ok(None) => {}
                    Ok(Some(m)) => rep.violation(&m, &case()),
                    Err(m) => rep.violation(&format!("panicked: {m}"), &case()),
                }
            }
        }
    });

    // recorded lookups on larger maps
    let n: usize = args.get("random").parse().unwrap();
    let n = if thorough { n * 20 } else { n };
    let recorded = Mutex::new(Vec::new());
    parallel(&rep, threads, n, |t, j| {
        let mut r = Rng::new(seed.wrapping_mul(77) ^ (j as u64) << 24);
        let size = if r.chance(75) { SIZES[r.below(20)] } else { *r.pick(SIZES) };
        // names over few letters, so that they are prefixes of each other
        let letters: Vec<String> = match r.below(4) {
            0 => vec!["a".into(), "b".into()],
            1 => vec!["x".into(), "é".into(), "è".into(), "\u{10FFFF}".into()],
            2 => ('a'..='j').map(|c| c.to_string()).collect(),
            _ => (0..6).map(|_| harness::gen::any_char(&mut r).to_string()).collect(),
        };
        let base = match r.below(10) {
            0..=2 => "common_prefix_".to_string(),
            3 if size < 33 => harness::gen::stem(&mut r),
            _ => String::new(),
        };
        let mut names: Vec<String> = Vec::new();
        let mut longest = 3;
        let mut tries = 0;
        while names.len() < size {
            tries += 1;
            if tries % 50 == 0 {
                longest += 1;
            }
            let mut w = if names.is_empty() || r.chance(60) { base.clone() } else { r.pick(&names).clone() };
            for _ in 0..r.below(longest + 1) {
                w.push_str(r.pick(&letters));
            }
            if w.len() < base.len() + 60 + longest && !names.contains(&w) {
                names.push(w);
            }
        }
        match r.below(5) {
            0 => names.sort(),
            1 => {
                names.sort();
                names.reverse();
            }
            2 => {
                // organ pipe
                names.sort();
                let (mut a, mut b) = (Vec::new(), Vec::new());
                for (i, n) in names.drain(..).enumerate() {
                    if i % 2 == 0 { a.push(n) } else { b.push(n) }
                }
                b.reverse();
                a.extend(b);
                names = a;
            }
            3 => {
                // nearly sorted
                names.sort();
                let k = names.len();
                if k > 1 {
                    let (i, j) = (r.below(k), r.below(k));
                    names.swap(i, j);
                }
            }
            _ => {}
        }
        let entries: Vec<(&'static str, usize)> = names.iter().enumerate().map(|(i, n)| (leak(n), i + 1)).collect();
        let case = || format!("{entries:?}");
        rep.case(t, case);
        rep.distinct(hash(&format!("{names:?}")));
        let mut probes: Vec<Vec<u8>> = Vec::new();
        for n in &names {
            if names.len() <= 40 || r.chance(20) {
                probes.push(n.clone().into_bytes());
            }
        }
        let all = names.len().max(1);
        for _ in 0..12 {
            let mut w = names.get(r.below(all)).cloned().unwrap_or_default();
            match r.below(4) {
                0 => {
                    w.pop();
                }
                1 => w.push_str(r.pick(&letters)),
                2 => {
                    // change one letter
                    let mut cs: Vec<char> = w.chars().collect();
                    if !cs.is_empty() {
                        let i = r.below(cs.len());
                        cs[i] = r.pick(&letters).chars().next().unwrap();
                    }
                    w = cs.into_iter().collect();
                }
                _ => w = (0..r.below(5)).map(|_| r.pick(&letters).clone()).collect(),
            }
            probes.push(w.into_bytes());
        }
        let res = catch(|| {
            with_map(&entries, |map| {
                if let Some(m) = check_entries(map, &entries) {
                    return Err(m);
                }
                Ok(probes
                    .iter()
                    .map(|p| {
                        let mask = match r.below(4) {
                            0 => 0,
                            1 => u64::MAX,
                            2 => 1 << r.below(p.len().clamp(1, 60)),
                            _ => r.next(),
                        };
                        let mut pieces = cut(p, mask);
                        if r.chance(40) {
                            pieces = pad(pieces, &mut r);
                        }
                        let got = lookup(map, &pieces, r.below(4));
                        // the whole string has to give the same
                        let whole = std::str::from_utf8(p).ok().and_then(|s| map.get(s).copied());
                        (pieces, if whole == got { got.unwrap_or(0) } else { 1_000_000 })
                    })
                    .collect::<Vec<_>>())
            })
        });
        match res {
            Err(m) => rep.violation(&format!("panicked: {m}"), &case()),
            Ok(Err(m)) => rep.violation(&m, &case()),
            Ok(Ok(probes)) => {
                let ps: Vec<String> = probes.iter().map(|(p, r)| format!("{{\"p\":{p:?},\"r\":{r}}}")).collect();
                let ns: Vec<String> = names.iter().map(|n| format!("{:?}", n.as_bytes())).collect();
                recorded
                    .lock()
                    .unwrap()
                    .push((format!("{{\"map\":[{}],\"probes\":[{}]}}", ns.join(","), ps.join(",")), case()));
                rep.count("recorded_lookups", probes.len() as u64);
            }
        }
    });
    let mut out = recorded.into_inner().unwrap();
    out.sort();
    harness::report::save("lookups", out);
    rep.sample(|| "maps over names such as [\"\", \"a\", \"ab\"], fed in every cutting".into());
    rep.finish();
}
