//! Conformance of the readers of text with the TextReader specification.
use harness::cursor::{ints, string, tuple};
use harness::report::{catch, hash, parallel, Args, Report};
use harness::rng::Rng;
use serdere::{LineColumnPosition, TextReader, Utf8Reader};
use std::collections::HashMap;
use std::sync::Mutex;

/// A reader that has no more than a reader must have.
struct Plain {
    chars: Vec<char>,
    at: usize,
}

impl TextReader for Plain {
    type Position = usize;
    fn next(&mut self) -> Option<char> {
        let c = self.chars.get(self.at).copied();
        self.at += c.is_some() as usize;
        c
    }
    fn peek(&self) -> Option<char> {
        self.chars.get(self.at).copied()
    }
    fn position(&self) -> usize {
        self.at
    }
}

#[derive(Clone, Debug)]
struct Call {
    a: String,
    w: Vec<u32>,
}

fn codes(s: &str) -> Vec<i64> {
    s.chars().map(|c| c as i64).collect()
}

/// Makes a call and gives its result; None if it contradicts itself.
fn perform<R: TextReader>(r: &mut R, c: &Call) -> Result<Vec<i64>, String> {
    let w = string(&c.w);
    Ok(match c.a.as_str() {
        "next" => r.next().map(|c| c as i64).into_iter().collect(),
        "peek" => r.peek().map(|c| c as i64).into_iter().collect(),
        "exact" => vec![r.read_exact(&w) as i64],
        "until" => {
            let mut asked = Vec::new();
            let got = r.read_until(|c| {
                asked.push(c as i64);
                w.contains(c).then_some(c)
            });
            match got {
                None => vec![],
                Some((s, c)) => {
                    let mut v = vec![c as i64];
                    v.extend(codes(&s));
                    let mut all = codes(&s);
                    all.push(c as i64);
                    if asked != all {
                        return Err(format!("the condition was asked about {asked:?} where {all:?} was read"));
                    }
                    v
                }
            }
        }
        a => panic!("call {a}"),
    })
}

/// What a reader is driven through: the calls, and at every offset the place.
struct Owed {
    /// by offset and call: where it leads and its result
    calls: HashMap<(i64, String), (i64, Vec<i64>)>,
    places: HashMap<i64, Vec<i64>>,
}

fn walk<R: TextReader>(
    mut r: R,
    path: &[&Call],
    owed: &Owed,
    check: &dyn Fn(&R, i64, &R::Position) -> Option<String>,
    strict: bool,
) -> Option<String> {
    let mut o = 0;
    let mut seen: Vec<(i64, R::Position)> = Vec::new();
    for (i, c) in path.iter().enumerate() {
        let (to, want) = &owed.calls[&(o, format!("{}{:?}", c.a, c.w))];
        match perform(&mut r, c) {
            Err(e) => return Some(e),
            Ok(got) if got != *want => return Some(format!("call {} gave {got:?} instead of {want:?}", i + 1)),
            Ok(_) => {}
        }
        if *to < 0 {
            return None;
        }
        o = *to;
        let p = r.position();
        if let Some(e) = check(&r, o, &p) {
            return Some(format!("after call {}: {e}", i + 1));
        }
        for (q, x) in &seen {
            let (by, at) = (x.cmp(&p), q.cmp(&o));
            if (strict || q == &o || by != std::cmp::Ordering::Equal) && by != at || (by == std::cmp::Ordering::Equal) != (*x == p) {
                return Some(format!("the position at {q} compares as {by:?} to the one at {o}"));
            }
        }
        seen.push((o, p));
    }
    None
}

const KINDS: [&str; 3] = ["str", "bytes", "plain"];

fn drive(kind: &str, text: &str, path: &[&Call], owed: &Owed, r: &mut Rng) -> Option<String> {
    let run = || match kind {
        "str" => {
            let check = |s: &&str, o: i64, _: &serdere::StrPosition| {
                let want: String = text.chars().take(o as usize).collect();
                let got = serdere::prefix(text, s);
                (got != want).then(|| format!("the text up to here is given as {got:?} instead of {want:?}"))
            };
            walk(text, path, owed, &check, true)
        }
        "bytes" => {
            let check = |_: &_, o: i64, p: &LineColumnPosition| {
                let want = &owed.places[&o];
                (*want != vec![p.line as i64, p.column as i64]).then(|| format!("the place is given as {p:?} instead of {want:?}"))
            };
            let chunks = harness::visit::Chunks::new(text.as_bytes(), r.fork());
            walk(Utf8Reader::new(chunks).unwrap(), path, owed, &check, false)
        }
        _ => {
            let chars: Vec<char> = text.chars().collect();
            walk(Plain { chars, at: 0 }, path, owed, &|_, _, _| None, true)
        }
    };
    match catch(std::panic::AssertUnwindSafe(run)) {
        Ok(x) => x,
        Err(m) => Some(format!("panicked: {m}")),
    }
}

fn show(path: &[&Call]) -> String {
    path.iter().map(|c| format!("{}{:?}", c.a, string(&c.w))).collect::<Vec<_>>().join(" ")
}

fn main() {
    let args = Args::parse();
    let threads = 8;
    let rep = Report::new(&args, threads);
    let seed = args.seed();
    let mut texts: HashMap<Vec<u32>, Owed> = HashMap::new();
    let mut calls: Vec<Call> = Vec::new();
    for l in std::fs::read_to_string(args.get("calls")).unwrap().lines() {
        let w: Vec<&str> = l.split('|').collect();
        if w.len() < 7 || w[0] != "T" {
            continue;
        }
        let t = ints(&tuple(w[1]));
        let o: i64 = w[2].parse().unwrap();
        let c = Call { a: w[3].to_string(), w: ints(&tuple(w[4])) };
        let r: Vec<i64> = tuple(w[6]).arr().iter().map(|x| x.int()).collect();
        let e = texts.entry(t).or_insert_with(|| Owed { calls: HashMap::new(), places: HashMap::new() });
        if c.a == "place" {
            e.places.insert(o, r);
            continue;
        }
        let name = format!("{}{:?}", c.a, c.w);
        if !calls.iter().any(|d| d.a == c.a && d.w == c.w) {
            calls.push(c);
        }
        e.calls.insert((o, name), (w[5].parse().unwrap(), r));
    }
    let texts: Vec<(Vec<u32>, Owed)> = texts.into_iter().collect();
    rep.count("texts", texts.len() as u64);
    let n = calls.len();
    let depth = if args.thorough() { 4 } else { 3 };
    parallel(&rep, threads, texts.len(), |t, j| {
        let (cs, owed) = &texts[j];
        let text = string(cs);
        let mut r = Rng::new(seed ^ (j as u64) << 12);
        rep.distinct(hash(&text));
        for kind in KINDS {
            for k in 0..n.pow(depth) {
                let path: Vec<&Call> = (0..depth).map(|i| &calls[k / n.pow(i) % n]).collect();
                if k % 512 == 0 {
                    rep.case(t, || format!("{kind} {text:?}: {}", show(&path)));
                    rep.count("paths", 512);
                }
                if let Some(e) = drive(kind, &text, &path, owed, &mut r) {
                    rep.violation(&e, &format!("{kind} {text:?}: {}", show(&path)));
                    return;
                }
            }
        }
        rep.sample(|| format!("{text:?}"));
    });
    // recorded sessions
    let sessions = args.get("sessions").parse::<usize>().unwrap() * if args.thorough() { 20 } else { 1 };
    let out = Mutex::new(Vec::new());
    parallel(&rep, threads, sessions, |t, j| {
        let mut r = Rng::new(seed.wrapping_mul(999_983) ^ (j as u64) << 8);
        let n = *r.pick(&[0usize, 1, 5, 20, 80]);
        let few: Vec<char> = (0..r.range(1, 4)).map(|_| harness::gen::any_char(&mut r)).collect();
        let text: String = (0..n)
            .map(|_| match r.below(10) {
                0 => *r.pick(&['\n', '\r', '\t', ' ']),
                1..=6 => *r.pick(&few),
                _ => harness::gen::any_char(&mut r),
            })
            .collect();
        let kind = *r.pick(&KINDS);
        rep.case(t, || format!("{kind} {text:?}"));
        let got = catch(std::panic::AssertUnwindSafe(|| match kind {
            "str" => session(text.as_str(), &text, &mut r, &|_, _| None),
            "bytes" => {
                let u = Utf8Reader::new(harness::visit::Chunks::new(text.as_bytes(), r.fork())).unwrap();
                session(u, &text, &mut r, &|_, p: &LineColumnPosition| Some(vec![p.line as i64, p.column as i64]))
            }
            _ => session(Plain { chars: text.chars().collect(), at: 0 }, &text, &mut r, &|_, _| None),
        }));
        let ev: Vec<(Call, Vec<i64>)> = match got {
            Ok(Ok(ev)) => ev,
            Ok(Err(m)) => return rep.violation(&m, &format!("{kind} {text:?}")),
            Err(m) => return rep.violation(&format!("panicked: {m}"), &format!("{kind} {text:?}")),
        };
        rep.count("recorded_calls", ev.len() as u64);
        if j % 2 == 0 {
            if let Some(s) = stretch(&text, &ev, &mut r) {
                rep.count("stretched_sessions", 1);
                let got = catch(std::panic::AssertUnwindSafe(|| match kind {
                    "str" => again(s.text.as_str(), &s, &|_, _| None),
                    "bytes" => {
                        let u = Utf8Reader::new(harness::visit::Chunks::new(s.text.as_bytes(), r.fork())).unwrap();
                        again(u, &s, &|_, p: &LineColumnPosition| Some(vec![p.line as i64, p.column as i64]))
                    }
                    _ => again(Plain { chars: s.text.chars().collect(), at: 0 }, &s, &|_, _| None),
                }));
                if let Some(m) = got.unwrap_or_else(|m| Some(format!("panicked: {m}"))) {
                    let n = s.text.chars().count();
                    return rep.violation(&m, &format!("{kind} {text:?} stretched to {n} characters"));
                }
            }
        }
        let ev: Vec<String> = ev.iter().map(|(c, got)| format!("{{\"a\":\"{}\",\"w\":{:?},\"r\":{:?}}}", c.a, c.w, got)).collect();
        let line = format!("{{\"t\":{:?},\"ev\":[{}]}}", codes(&text), ev.join(","));
        rep.distinct(hash(&line));
        out.lock().unwrap().push((line, format!("{kind} {text:?}")));
    });
    let mut out = out.into_inner().unwrap();
    out.sort();
    if let Ok(dir) = std::env::var("VERIF_WORK") {
        let lines: String = out.iter().map(|l| format!("{}\n", l.0)).collect();
        std::fs::write(format!("{dir}/reads.ndjson"), lines).unwrap();
        let shown: String = out.iter().map(|l| format!("{}\n", l.1)).collect();
        std::fs::write(format!("{dir}/reads.show"), shown).unwrap();
    }
    rep.finish();
}

type Place<'a, R> = &'a dyn Fn(&R, &<R as TextReader>::Position) -> Option<Vec<i64>>;

/// Where a call leads.
fn after(at: usize, c: &Call, got: &[i64], len: usize) -> usize {
    (at + match c.a.as_str() {
        "next" => got.len(),
        "until" => if got.is_empty() { len } else { got.len() },
        "exact" => c.w.len(),
        _ => 0,
    })
    .min(len)
}

/// The same session where one call moves past very many characters more.  The specification
/// treats characters one by one and alike: the call gives (or is given) them as well, and what
/// comes later on the same line has moved.
struct Stretched {
    text: String,
    calls: Vec<(Call, Vec<i64>)>,
}

fn stretch(text: &str, ev: &[(Call, Vec<i64>)], r: &mut Rng) -> Option<Stretched> {
    let chars: Vec<char> = text.chars().collect();
    let mut offsets = vec![0];
    for (c, got) in ev {
        offsets.push(after(*offsets.last().unwrap(), c, got, chars.len()));
    }
    let long: Vec<usize> = (0..ev.len())
        .filter(|i| {
            let (c, got) = &ev[*i];
            (c.a == "until" || c.a == "exact" && *got == [1]) && offsets[i + 1] - offsets[*i] > 1
        })
        .collect();
    if long.is_empty() {
        return None;
    }
    let i = *r.pick(&long);
    let ends: Vec<u32> = ev.iter().filter(|e| e.0.a == "until").flat_map(|e| e.0.w.clone()).collect();
    let free: Vec<(char, i64)> = [('x', 1), ('"', 1), ('\u{e9}', 1), ('\u{fffd}', 1), ('\u{1f600}', 1), ('\t', 4), ('\r', 0)]
        .into_iter()
        .filter(|p| !ends.contains(&(p.0 as u32)))
        .collect();
    let (pad, width) = *r.pick(&free);
    let n = *r.pick(&[253, 254, 255, 256, 257, 1023, 1025, 4094, 4096, 4099, 32768, 65533, 65535, 65536, 65538, 70000, 131073]);
    let n = (n as i64 + r.below(3) as i64 - 1) as usize;
    let o = offsets[i] + r.range(1, offsets[i + 1] - offsets[i] - 1);
    let text = chars[..o].iter().copied().chain(std::iter::repeat_n(pad, n)).chain(chars[o..].iter().copied()).collect();
    let calls = ev
        .iter()
        .enumerate()
        .map(|(j, (c, got))| {
            let (mut c, mut got) = (c.clone(), got.clone());
            if j == i {
                let k = o - offsets[i];
                if c.a == "exact" {
                    c.w.splice(k..k, std::iter::repeat_n(pad as u32, n));
                } else if !got.is_empty() {
                    // (the terminator comes first)
                    got.splice(k + 1..k + 1, std::iter::repeat_n(pad as i64, n));
                }
            } else if j > i && c.a == "place" && !chars[o..offsets[j]].contains(&'\n') {
                got[1] += width * n as i64;
            }
            (c, got)
        })
        .collect();
    Some(Stretched { text, calls })
}

fn again<R: TextReader>(mut reader: R, s: &Stretched, place: Place<R>) -> Option<String> {
    for (i, (c, want)) in s.calls.iter().enumerate() {
        let got = if c.a == "place" { Ok(place(&reader, &reader.position()).unwrap_or_default()) } else { perform(&mut reader, c) };
        match got {
            Ok(got) if got == *want => {}
            Ok(got) => {
                let cut = |v: &[i64]| format!("{} items {:?}", v.len(), &v[..v.len().min(8)]);
                return Some(format!("call {} ({}) gave {} instead of {}", i + 1, c.a, cut(&got), cut(want)));
            }
            Err(e) => return Some(e.chars().take(300).collect()),
        }
    }
    None
}

/// A random session, as the events of the trace.
fn session<R: TextReader>(
    mut reader: R,
    text: &str,
    r: &mut Rng,
    place: Place<R>,
) -> Result<Vec<(Call, Vec<i64>)>, String> {
    let chars: Vec<char> = text.chars().collect();
    let mut ev = Vec::new();
    // where it is believed to be; only guides the choice of calls
    let mut at = 0;
    for _ in 0..r.range(1, 40) {
        let c = match r.below(10) {
            0..=2 => Call { a: "next".into(), w: vec![] },
            3 | 4 => Call { a: "peek".into(), w: vec![] },
            5 | 6 => {
                let n = r.below(6).min(chars.len() - at.min(chars.len()));
                let mut w: Vec<u32> = chars[at.min(chars.len())..][..n].iter().map(|c| *c as u32).collect();
                if r.chance(5) {
                    w.push(r.pick(&['a', '\n', '\u{e9}']).to_owned() as u32);
                }
                Call { a: "exact".into(), w }
            }
            7 | 8 => {
                let mut w: Vec<u32> = (0..r.below(3)).map(|_| harness::gen::any_char(r) as u32).collect();
                for _ in 0..2 {
                    if !chars.is_empty() && r.chance(70) {
                        w.push(*r.pick(&chars) as u32);
                    }
                }
                Call { a: "until".into(), w }
            }
            _ => {
                if let Some(p) = place(&reader, &reader.position()) {
                    ev.push((Call { a: "place".into(), w: vec![] }, p));
                }
                continue;
            }
        };
        let got = perform(&mut reader, &c)?;
        let end = c.a == "exact" && got == [0];
        at = after(at, &c, &got, chars.len());
        ev.push((c, got));
        if end {
            break;
        }
    }
    Ok(ev)
}
