//! Conformance of the reader with the character-level specification (JsonText.tla).
use harness::gen::{self, Gen};
use harness::json::quote;
use harness::machine::{self, run, Doc, Kind, Table};
use harness::report::{catch, hash, parallel, Args, Report};
use harness::rng::Rng;
use harness::visit::*;
use serdere::{Deserialize, Deserializer, FixedNameMap, NameMap, Outliner, StrPosition, TextReader, Utf8Reader};
use serdere_json::{
    CollectionType, DeserializeError, JsonDeserializer, JsonOutliner, TextDeserializer, ValueType,
};
use std::collections::HashSet;
use std::sync::Arc;

struct Cx {
    t: Table,
    prop: String,
    r: Arc<Report>,
    seed: u64,
    thorough: bool,
    threads: usize,
}

/// One way of reading one text.
struct Case<'a> {
    text: &'a str,
    comments: bool,
    mode: &'a str,
    seed: u64,
    utf8: bool,
    first: &'a [String],
    skip_at: Option<usize>,
}

impl Case<'_> {
    fn desc(&self) -> String {
        format!(
            "text={} comments={} mode={} seed={} reader={}{}{}",
            quote(self.text),
            self.comments,
            self.mode,
            self.seed,
            if self.utf8 { "bytes" } else { "str" },
            if self.first.is_empty() { String::new() } else { format!(" first={:?}", self.first) },
            self.skip_at.map(|n| format!(" skip_at={n}")).unwrap_or_default()
        )
    }
}

fn run_str(c: &Case, doc: &Doc, absent: &[String], dup: bool) -> Out<usize> {
    let mut p = Policy::named(c.mode, c.seed, &doc.keys, absent, dup);
    p.first = c.first;
    p.skip_at = c.skip_at;
    read_str(c.text, c.comments, &mut p)
}

fn run_utf8(c: &Case, doc: &Doc, absent: &[String], dup: bool) -> Out<(usize, usize)> {
    let mut p = Policy::named(c.mode, c.seed, &doc.keys, absent, dup);
    p.first = c.first;
    p.skip_at = c.skip_at;
    read_utf8(c.text, c.comments, &mut p, Rng::new(c.seed ^ 0x55))
}

/// Runs one case and judges the outcome by what the property says.
fn judge(cx: &Cx, c: &Case, doc: &Doc, absent: &[String], dup: bool) -> Option<String> {
    if cx.prop == "C18" {
        let a = run_str(c, doc, absent, dup);
        let b = run_utf8(c, doc, absent, dup);
        return match (a, b) {
            (Out::Ok(a), Out::Ok(b)) => (a != b).then(|| "different values from a string and from bytes".to_string()),
            (Out::Err(p, m), Out::Err(q, n)) => {
                if m != n {
                    return Some(format!("error {m} from a string but {n} from bytes"));
                }
                match (p, q) {
                    (Some(p), Some(q)) => {
                        let e = cx.t.line_col(c.text, p);
                        (e != q).then(|| format!("error at byte {p} should be at line/column {e:?}, is at {q:?}"))
                    }
                    (p, q) => Some(format!("no position: {p:?} {q:?}")),
                }
            }
            (Out::Panic(_), Out::Panic(_)) => None,
            (a, b) => Some(format!("string: {}, bytes: {}", brief(&a), brief(&b))),
        };
    }
    if cx.prop == "C26" {
        return told(cx, c, doc, absent, dup);
    }
    if c.utf8 {
        let b = run_utf8(c, doc, absent, dup);
        judge_one(cx, doc, b.map_pos(|_| 0), false)
    } else {
        let b = run_str(c, doc, absent, dup);
        judge_one(cx, doc, b, true)
    }
}

/// Whether what an error says is true.
fn told(cx: &Cx, c: &Case, doc: &Doc, absent: &[String], dup: bool) -> Option<String> {
    let (place, m) = if c.utf8 {
        match run_utf8(c, doc, absent, dup) {
            Out::Err(p, m) => (p, m),
            _ => return None,
        }
    } else {
        match run_str(c, doc, absent, dup) {
            Out::Err(_, m) => (None, m),
            _ => return None,
        }
    };
    let what = doc.what.as_ref()?;
    let allowed = &cx.t.truth.iter().find(|t| t.0 == *what).unwrap().1;
    let kind = m.split('(').next().unwrap();
    if !allowed.iter().any(|a| a == kind) {
        return Some(format!("the error is {m}, where {allowed:?} would be true"));
    }
    if what == "number" && kind == "Expected" && m != "Expected([Number])" {
        return Some(format!("the error of a malformed number is {m}"));
    }
    let [all, message, at] = harness::visit::DISPLAYED.with(|d| d.borrow().clone());
    if message.trim().is_empty() || !all.contains(&message) || !all.contains(&at) {
        return Some(format!("the error {m} is displayed as {all:?}, its message as {message:?}"));
    }
    if let Some((line, col)) = place {
        let shown = vec![line + cx.t.shown.0 - 1, col + cx.t.shown.1 - 7];
        if harness::visit::numbers_in(&at) != shown {
            return Some(format!("the position {line}, {col} is displayed as {at:?}"));
        }
    }
    None
}

fn brief<P: std::fmt::Debug>(o: &Out<P>) -> String {
    match o {
        Out::Ok(_) => "accepted".into(),
        Out::Err(p, m) => format!("error {m} at {p:?}"),
        Out::Panic(m) => format!("panic {m}"),
    }
}

trait MapPos<P> {
    fn map_pos<Q>(self, f: impl Fn(P) -> Q) -> Out<Q>;
}
impl<P> MapPos<P> for Out<P> {
    fn map_pos<Q>(self, f: impl Fn(P) -> Q) -> Out<Q> {
        match self {
            Out::Ok(v) => Out::Ok(v),
            Out::Err(p, m) => Out::Err(p.map(f), m),
            Out::Panic(m) => Out::Panic(m),
        }
    }
}

fn judge_one(cx: &Cx, doc: &Doc, o: Out<usize>, pos: bool) -> Option<String> {
    let verdict = |o: &Out<usize>| match o {
        Out::Ok(_) if !doc.ok() => Some(format!("accepted, but not well-formed (error expected at {:?})", doc.error)),
        Out::Err(p, m) if doc.ok() => Some(format!("well-formed, but rejected: {m} at {p:?}")),
        Out::Panic(m) => Some(format!("panic: {m}")),
        _ => None,
    };
    match cx.prop.as_str() {
        "C01" => verdict(&o),
        "C02" => match o {
            Out::Panic(m) => Some(format!("panic: {m}")),
            _ => None,
        },
        "C05" => match &o {
            Out::Ok(v) => compare(doc, v),
            _ => verdict(&o),
        },
        "C08" | "C22" => match &o {
            Out::Ok(v) if doc.ok() => compare(doc, v),
            _ => verdict(&o),
        },
        "C21" => match &o {
            Out::Err(p, m) if !doc.ok() && pos => (*p != doc.error && (p.is_none() || *p != doc.error_alt)).then(|| {
                format!("{m} is positioned at {p:?}, expected {:?}", doc.error.unwrap())
            }),
            _ => None,
        },
        p => panic!("property {p}"),
    }
}

/// Evaluates a text in several modes.
fn evaluate(cx: &Cx, th: usize, text: &str, comments: bool, modes: &[&str], utf8: usize, rng: &mut Rng, seen: &mut HashSet<u64>) -> bool {
    let doc = run(&cx.t, text, comments);
    if doc.huge_exp || (comments && cx.t.controls[doc.q as usize].starts_with("cl:")) {
        return false;
    }
    if cx.prop == "C21" && doc.ok() {
        return false;
    }
    let dup = has_duplicates(&doc);
    let absent = absent_keys(&doc.keys, rng);
    seen.insert(hash(text) ^ comments as u64);
    for mode in modes {
        let c = Case {
            text,
            comments,
            mode,
            seed: rng.next() % 1_000_000,
            utf8: rng.chance(utf8),
            first: &[],
            skip_at: None,
        };
        one(cx, th, &c, &doc, &absent, dup);
    }
    true
}

fn one(cx: &Cx, th: usize, c: &Case, doc: &Doc, absent: &[String], dup: bool) {
    cx.r.case(th, || c.desc());
    if let Some(what) = judge(cx, c, doc, absent, dup) {
        report(cx, c, what);
    }
}

fn report(cx: &Cx, c: &Case, what: String) {
    // try to shorten the text
    let mut text: Vec<char> = c.text.chars().collect();
    let mut what = what;
    if text.len() <= 400 && c.first.is_empty() && c.skip_at.is_none() {
        let mut budget = 3000;
        let mut size = text.len() / 2;
        while size > 0 && budget > 0 {
            let mut i = 0;
            let mut any = false;
            while i + size <= text.len() && budget > 0 {
                budget -= 1;
                let mut s = text.clone();
                s.drain(i..i + size);
                let cand: String = s.iter().collect();
                let doc = run(&cx.t, &cand, c.comments);
                let skip = doc.huge_exp || (c.comments && cx.t.controls[doc.q as usize].starts_with("cl:"));
                let absent = absent_keys(&doc.keys, &mut Rng::new(c.seed));
                let k = Case { text: &cand, ..*c };
                match if skip { None } else { judge(cx, &k, &doc, &absent, has_duplicates(&doc)) } {
                    Some(w) => {
                        text = s;
                        what = w;
                        any = true;
                    }
                    None => i += size,
                }
            }
            if !any || size == 1 {
                size /= 2;
            }
        }
    }
    let s: String = text.iter().collect();
    let k = Case { text: &s, ..*c };
    cx.r.violation(&what, &k.desc());
}

impl Clone for Case<'_> {
    fn clone(&self) -> Self {
        *self
    }
}
impl Copy for Case<'_> {}

/// All short sequences of classes from every reachable configuration, completed to a text.
fn wmethod(cx: &Cx, comments: bool, depth: usize, len: usize, modes: &[&str], utf8: usize, filter: impl Fn(&str) -> bool + Sync) {
    let reach: Vec<_> = machine::reachable(&cx.t, comments, depth)
        .into_iter()
        .filter(|(q, _, _)| filter(&cx.t.controls[*q as usize]))
        .collect();
    let nc = cx.t.classes.len();
    cx.r.count("configurations", reach.len() as u64);
    // one job per configuration and first class
    parallel(&cx.r, cx.threads, reach.len() * nc, |th, job| {
        let (q, stack, path) = &reach[job / nc];
        let mut rng = Rng::new(cx.seed ^ (job as u64) << 8 ^ 0xA11);
        let mut seen = HashSet::new();
        let mut transitions = 0u64;
        let mut tails: Vec<Vec<u8>> = vec![vec![(job % nc) as u8]];
        let mut all: Vec<Vec<u8>> = tails.clone();
        for _ in 1..len {
            let mut n = Vec::new();
            for t in &tails {
                for c in 0..nc as u8 {
                    let mut u = t.clone();
                    u.push(c);
                    n.push(u);
                }
            }
            all.extend(n.iter().cloned());
            tails = n;
        }
        for tail in &all {
            // follow the specification, and complete from the last configuration that is alive
            let (mut q, mut stack) = (*q, stack.clone());
            let mut dead = false;
            let mut alive = tail.len();
            for (i, c) in tail.iter().enumerate() {
                let cell = cx.t.cell(comments, q, stack.last().copied().unwrap_or(0) as usize, *c);
                if cell.next == cx.t.error {
                    dead = true;
                    alive = i;
                    break;
                }
                transitions += 1;
                match cell.op {
                    0 => {}
                    1 => {
                        stack.pop();
                    }
                    2 => stack.push(1),
                    _ => stack.push(2),
                }
                q = cell.next;
            }
            if dead && alive + 1 < tail.len() {
                continue; // the same error as for the shorter sequence
            }
            let mut s = String::new();
            for c in path.iter().chain(tail) {
                s.push(cx.t.rep(*c, &mut rng));
            }
            let cut = s.len();
            cx.t.complete(q, &stack, &mut rng, &mut s);
            evaluate(cx, th, &s, comments, modes, utf8, &mut rng, &mut seen);
            if !dead && rng.chance(if tail.len() == 1 { 100 } else { 20 }) {
                s.truncate(cut);
                evaluate(cx, th, &s, comments, modes, utf8, &mut rng, &mut seen);
            }
            if rng.chance(2) {
                cx.r.sample(|| s.clone());
            }
        }
        cx.r.distinct_all(&seen);
        cx.r.count("spec_transitions_driven", transitions);
    });
}

fn random_texts(cx: &Cx, n: usize, g: Gen, comments: bool, mutate: usize, modes: &[&str], utf8: usize) {
    let batch = 64;
    parallel(&cx.r, cx.threads, n.div_ceil(batch), |th, job| {
        let mut rng = Rng::new(cx.seed.wrapping_mul(31) ^ (job as u64) << 20 ^ hash(&format!("{}{}{}", g.size, mutate, comments)));
        let mut seen = HashSet::new();
        for _ in 0..batch {
            let mut g = g;
            g.size = rng.range(1, g.size);
            let mut s = gen::text(&g, &mut rng);
            if rng.chance(mutate) {
                s = gen::mutate(&cx.t, &s, &mut rng);
            } else {
                let d = run(&cx.t, &s, comments);
                assert!(
                    d.ok() || g.comments > 0 && !comments,
                    "the generator produced a text the specification rejects: {s:?}"
                );
            }
            evaluate(cx, th, &s, comments, modes, utf8, &mut rng, &mut seen);
            if rng.chance(1) {
                cx.r.sample(|| s.clone());
            }
        }
        cx.r.distinct_all(&seen);
    });
}

/// A few large texts.
fn large_texts(cx: &Cx, modes: &[&str], comments: bool) {
    let mut rng = Rng::new(cx.seed ^ 0x1a26e);
    let mut texts = Vec::new();
    let deep = if cx.thorough { 1_000_000 } else { 150_000 };
    for style in 0..3 {
        texts.push(gen::deep(deep, &mut rng, style));
        texts.push(gen::deep(300, &mut rng, style));
        let mut s = gen::deep(deep, &mut rng, style);
        s.truncate(s.len() / 2);
        texts.push(s);
    }
    texts.push("[".repeat(deep));
    texts.push("{\"a\":".repeat(deep));
    for n in [31, 32, 33, 64, 500, 5000] {
        texts.push(format!("[{}]", "7".repeat(n)));
        texts.push(format!("{{\"a\":-0.{}1e-5,\"b\":[1{}.5]}}", "0".repeat(n), "0".repeat(n)));
    }
    for n in [127, 128, 255, 256, 32767, 32768, 65535, 65536, 70_000] {
        texts.push(format!("{{\"{}\":1,\"{}\":2,\"b\":3}}", "k".repeat(n), "k".repeat(n + 1)));
        texts.push(format!("[\"{}\",\"{}\\n\",2]", "é".repeat(n), "s".repeat(n)));
    }
    for n in [300, 5000] {
        let mut s = String::from("{");
        for i in 0..n {
            if i > 0 {
                s.push(',');
            }
            s.push_str(&format!("\"k{i}\":[{i},{{\"x\":{i}}}]"));
        }
        s.push('}');
        texts.push(s);
    }
    let g = Gen { size: 4000, depth: 12, long: 1, container: true, comments: if comments { 30 } else { 0 }, ..Gen::default() };
    for _ in 0..if cx.thorough { 60 } else { 6 } {
        let s = gen::text(&g, &mut rng);
        texts.push(s.clone());
        texts.push(gen::mutate(&cx.t, &s, &mut rng));
    }
    parallel(&cx.r, cx.threads, texts.len(), |th, job| {
        let mut rng = Rng::new(cx.seed ^ (job as u64) << 3);
        let mut seen = HashSet::new();
        let modes: Vec<&str> = modes.iter().copied().filter(|m| *m != "mixed" || texts[job].len() < 2_000_000).collect();
        evaluate(cx, th, &texts[job], comments, &modes, 30, &mut rng, &mut seen);
        cx.r.distinct_all(&seen);
    });
    cx.r.count("large_texts", texts.len() as u64);
}

// ---------------------------------------------------------------------------------------------
// C05: skipping

fn skipping(cx: &Cx) {
    let n = if cx.thorough { 60_000 } else { 4_500 };
    parallel(&cx.r, cx.threads, n, |th, job| {
        let mut rng = Rng::new(cx.seed ^ (job as u64) << 16 ^ 5);
        let mut seen = HashSet::new();
        let comments = rng.chance(25);
        let g = Gen { size: rng.range(2, 25), container: true, comments: if comments { 40 } else { 0 }, ..Gen::default() };
        let s = gen::text(&g, &mut rng);
        let doc = run(&cx.t, &s, comments);
        if !doc.ok() || doc.huge_exp {
            return;
        }
        let dup = has_duplicates(&doc);
        let absent = absent_keys(&doc.keys, &mut rng);
        // skip each value in turn, read in order, and after everything was set aside
        for at in 0..doc.nodes.len() {
            for mode in ["stream", "chars", "aside", "mixed"] {
                let c = Case {
                    text: &s,
                    comments,
                    mode,
                    seed: rng.next() % 1_000_000,
                    utf8: rng.chance(15),
                    first: &[],
                    skip_at: Some(at),
                };
                one(cx, th, &c, &doc, &absent, dup);
            }
        }
        seen.insert(hash(&s));
        cx.r.distinct_all(&seen);
        cx.r.sample(|| s.clone());
    });
}

// ---------------------------------------------------------------------------------------------
// C08: requested keys

fn requests(cx: &Cx) {
    let n = if cx.thorough { 300_000 } else { 20_000 };
    parallel(&cx.r, cx.threads, n, |th, job| {
        let mut rng = Rng::new(cx.seed ^ (job as u64) << 16 ^ 8);
        let long = rng.chance(1);
        let g = Gen { long: if long { 30 } else { 0 }, ..Gen::default() };
        let mut keys: Vec<String> = Vec::new();
        let base = gen::chars(&g, &mut rng);
        for _ in 0..rng.range(1, 5) {
            let k = match rng.below(4) {
                0 => gen::chars(&g, &mut rng),
                1 => base.clone(),
                _ => {
                    let v = near(&base);
                    v[rng.below(v.len())].clone()
                }
            };
            if !keys.contains(&k) {
                keys.push(k);
            }
        }
        let mut s = String::from("{");
        for (i, k) in keys.iter().enumerate() {
            if i > 0 {
                s.push_str(", ");
            }
            gen::quoted(k, &mut rng, &mut s);
            match rng.below(3) {
                0 => s.push_str(&format!(": {}", i)),
                1 => s.push_str(&format!(":[{}]", i)),
                _ => {
                    s.push_str(": ");
                    let v = gen::chars(&Gen::default(), &mut rng);
                    gen::quoted(&v, &mut rng, &mut s);
                }
            }
        }
        s.push('}');
        let doc = run(&cx.t, &s, false);
        assert!(doc.ok());
        if doc.keys != keys {
            panic!("the specification decodes the keys of {s:?} as {:?}", doc.keys);
        }
        let absent = absent_keys(&keys, &mut rng);
        let mut reqs: Vec<Vec<String>> = Vec::new();
        for k in keys.iter().chain(absent.iter()) {
            reqs.push(vec![k.clone()]);
            reqs.push(vec![absent[0].clone(), k.clone()]);
        }
        for _ in 0..3 {
            let mut all: Vec<String> = keys.clone();
            all.extend(absent.iter().take(3).cloned());
            rng.shuffle(&mut all);
            reqs.push(all);
        }
        let mut seen = HashSet::new();
        for first in &reqs {
            let c = Case {
                text: &s,
                comments: false,
                mode: if rng.chance(50) { "stream" } else { "chars" },
                seed: rng.next() % 1_000_000,
                utf8: rng.chance(25),
                first,
                skip_at: None,
            };
            seen.insert(hash(&s) ^ hash(&first.join("\u{1}")).rotate_left(7));
            one(cx, th, &c, &doc, &absent, false);
        }
        cx.r.distinct_all(&seen);
        if rng.chance(1) {
            cx.r.sample(|| format!("{s} requests {:?}", reqs.last()));
        }
    });
}

// ---------------------------------------------------------------------------------------------
// C18: the character readers themselves

fn readers(cx: &Cx) {
    let n = if cx.thorough { 200_000 } else { 20_000 };
    parallel(&cx.r, cx.threads, n / 64, |th, job| {
        let mut rng = Rng::new(cx.seed ^ (job as u64) << 16 ^ 18);
        for _ in 0..64 {
            let mut s = String::new();
            for _ in 0..rng.below(40) {
                if rng.chance(30) {
                    s.push(*rng.pick(&['\n', '\t', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{2028}']));
                } else {
                    s.push(gen::any_char(&mut rng));
                }
            }
            cx.r.case(th, || format!("characters {}", quote(&s)));
            let seed = rng.next();
            let r = catch(|| character_session(cx, &s, seed));
            match r {
                Ok(None) => {}
                Ok(Some(w)) => cx.r.violation(&w, &format!("text={} seed={seed}", quote(&s))),
                Err(p) => cx.r.violation(&format!("panic: {p}"), &format!("text={} seed={seed}", quote(&s))),
            }
            cx.r.distinct(hash(&s));
        }
    });
}

fn character_session(cx: &Cx, s: &str, seed: u64) -> Option<String> {
    let mut rng = Rng::new(seed);
    let mut a: &str = s;
    let mut ch = Chunks::new(s.as_bytes(), rng.fork());
    ch.interrupt = *rng.pick(&[0, 10, 60]);
    ch.max = *rng.pick(&[1, 2, 3, 4, 100]);
    let mut b = match Utf8Reader::new(ch) {
        Ok(b) => b,
        Err(e) => return Some(format!("could not start: {e}")),
    };
    let expect: Vec<char> = s.chars().collect();
    let mut i = 0; // characters consumed according to the text itself
    loop {
        let off: usize = expect[..i].iter().map(|c| c.len_utf8()).sum();
        let lc = cx.t.line_col(s, off);
        let p = b.position();
        if (p.line, p.column) != lc {
            return Some(format!("after {i} characters the position is {p:?}, expected {lc:?}"));
        }
        if offset(s, &a.position()) != Some(off) {
            return Some(format!("after {i} characters the string position is not {off}"));
        }
        let want = expect.get(i).copied();
        if a.peek() != want || b.peek() != want {
            return Some(format!("character {i}: peek {:?} / {:?}, expected {want:?}", a.peek(), b.peek()));
        }
        match rng.below(8) {
            0 if i < expect.len() => {
                let n = rng.below(3).min(expect.len() - i);
                let mut w: String = expect[i..i + n].iter().collect();
                let bad = rng.chance(10);
                if bad {
                    w.push(if expect.get(i + n) == Some(&'Q') { 'R' } else { 'Q' });
                }
                let (x, y) = (a.read_exact(&w), b.read_exact(&w));
                if x == bad || y == bad {
                    return Some(format!("read_exact({w:?}) at {i}: {x} / {y}, expected {}", !bad));
                }
                if bad {
                    return None;
                }
                i += n;
            }
            1 => {
                let stop = expect.get(i + rng.below(4)).copied().unwrap_or('Q');
                let x = a.read_until(|c| (c == stop).then_some(c)).map(|(s, c)| (s.into_owned(), c));
                let y = b.read_until(|c| (c == stop).then_some(c)).map(|(s, c)| (s.into_owned(), c));
                let at = expect[i..].iter().position(|c| *c == stop);
                let want = at.map(|n| (expect[i..i + n].iter().collect::<String>(), stop));
                if x != want || y != want {
                    return Some(format!("read_until({stop:?}) at {i}: {x:?} / {y:?}, expected {want:?}"));
                }
                match at {
                    None => return None,
                    Some(n) => i += n + 1,
                }
            }
            _ => {
                let (x, y) = (a.next(), b.next());
                if x != want || y != want {
                    return Some(format!("character {i}: {x:?} / {y:?}, expected {want:?}"));
                }
                if want.is_none() {
                    return None;
                }
                i += 1;
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C21: errors raised by typed reads

fn names() -> &'static NameMap<usize> {
    static MAP: FixedNameMap<usize, 3> =
        FixedNameMap::new([("alpha", 0), ("beta", 1), ("\u{1}none", 2)]);
    static UNFIX: std::sync::OnceLock<&'static NameMap<usize>> = std::sync::OnceLock::new();
    UNFIX.get_or_init(|| Box::leak(Box::new(&MAP)).unfix())
}

type D<'s> = TextDeserializer<&'s str>;
type E<'s> = DeserializeError<StrPosition<'s>>;

fn bad<'s, T>(what: &str, r: Result<T, E<'s>>) -> Result<(), E<'s>> {
    r.map(|_| NOERR.with(|n| *n.borrow_mut() = Some(what.to_string())))
}

thread_local! {
    static NOERR: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

/// Goes to a node of the document, by key, by iteration, or after setting everything aside.
fn locate<'s>(d: &mut D<'s>, doc: &Doc, target: usize, aside: bool, dup: bool, absent: &str, rng: &mut Rng) -> Result<(), E<'s>> {
    let mut at = doc.root;
    loop {
        if at == target {
            return Ok(());
        }
        let inside = |n: usize| doc.nodes[n].start <= doc.nodes[target].start && doc.nodes[target].end <= doc.nodes[n].end;
        match &doc.nodes[at].kind {
            Kind::Obj(es) => {
                d.open_object()?;
                if aside {
                    d.try_push_entry(absent)?;
                }
                let i = es.iter().position(|e| inside(e.1)).unwrap();
                if !dup && rng.chance(50) {
                    d.push_entry(&es[i].0)?;
                } else {
                    for j in 0..=i {
                        assert!(d.next_entry()?);
                        d.skip_str()?;
                        if j < i {
                            d.skip_value()?;
                        }
                    }
                }
                at = es[i].1;
            }
            Kind::Arr(vs) => {
                d.open_list()?;
                let i = vs.iter().position(|v| inside(*v)).unwrap();
                for j in 0..=i {
                    d.push_item()?;
                    if j < i {
                        d.skip_value()?;
                    }
                }
                at = vs[i];
            }
            _ => unreachable!(),
        }
    }
}

const OPS: usize = 22;

/// Does something with the value on top of the stack that must fail at its start.
/// Returns false if the operation does not apply.
fn misread<'s>(d: &mut D<'s>, doc: &Doc, n: usize, op: usize, rng: &mut Rng, absent: &str) -> Result<bool, E<'s>> {
    let k = &doc.nodes[n].kind;
    let num = matches!(k, Kind::Num(_));
    let string = matches!(k, Kind::Str(_));
    let custom = || -> Box<dyn std::error::Error + Send + Sync> { "custom".into() };
    match op {
        0 if !matches!(k, Kind::Bool(_)) => bad("get_bool", d.get_bool())?,
        1 if !num => bad("get_i32", d.get_i32())?,
        2 if !num => bad("get_f64", d.get_f64())?,
        3 if !string => bad("read_str", d.read_str().map(|_| ()))?,
        4 if *k != Kind::Null => bad("pop_null", d.pop_null())?,
        5 if !matches!(k, Kind::Arr(_)) => bad("open_list", d.open_list())?,
        6 if !matches!(k, Kind::Obj(_)) => bad("open_object", d.open_object())?,
        7 if !matches!(k, Kind::Obj(_) | Kind::Arr(_)) => bad("open_struct", d.open_struct(None))?,
        8 if !matches!(k, Kind::Arr(_)) => bad("open_tuple", d.open_tuple(None))?,
        9 if !string => bad("get_char", d.get_char())?,
        10 if num => {
            // out of range: certainly so for literals with a fraction or more than three digits
            let Kind::Num(s) = k else { unreachable!() };
            let plain = s.trim_start_matches('-');
            if !plain.bytes().all(|b| b.is_ascii_digit()) || plain.len() < 4 {
                return Ok(false);
            }
            if rng.chance(50) {
                bad("get_u8", d.get_u8())?
            } else {
                bad("get_i8", d.get_i8())?
            }
        }
        11 if string || num => {
            // unknown name or index
            match k {
                Kind::Str(s) if s == "alpha" || s == "beta" || s == "\u{1}none" => return Ok(false),
                Kind::Num(s) if !(s.len() >= 2 && s.len() < 15 && s.bytes().all(|b| b.is_ascii_digit())) => {
                    return Ok(false)
                }
                _ => {}
            }
            bad("get_tag", d.get_tag(2, names()))?
        }
        12 if string => {
            if names().lookup().result().is_some() {
                return Ok(false);
            }
            let Kind::Str(s) = k else { unreachable!() };
            if s == "alpha" || s == "beta" || s == "\u{1}none" {
                return Ok(false);
            }
            bad("get_name", d.get_name(names()))?
        }
        13 => {
            // validation of a value that was read
            match k {
                Kind::Str(_) => {
                    if rng.chance(50) {
                        d.read_str()?;
                    } else {
                        d.open_str()?;
                        while d.next_char()?.is_some() {}
                    }
                }
                Kind::Num(_) => {
                    d.get_f64()?;
                }
                Kind::Bool(_) => {
                    d.get_bool()?;
                }
                Kind::Null => d.pop_null()?,
                Kind::Arr(_) => {
                    d.open_list()?;
                    while d.next_item()? {
                        d.skip_value()?;
                    }
                }
                Kind::Obj(_) => {
                    d.open_object()?;
                    if rng.chance(50) {
                        d.try_push_entry(absent)?;
                    }
                    match rng.below(3) {
                        0 => d.skip_object()?,
                        1 => {
                            while d.next_entry()? {
                                d.skip_str()?;
                                d.skip_value()?;
                            }
                        }
                        _ => d.close_struct()?,
                    }
                }
            }
            bad("error", Err::<(), _>(d.error(custom())))?
        }
        14 => match k {
            // a validation error after skipping
            Kind::Obj(_) | Kind::Arr(_) | Kind::Str(_) => {
                d.skip_value()?;
                bad("error", Err::<(), _>(d.error(custom())))?
            }
            _ => return Ok(false),
        },
        15 => match k {
            // missing key
            Kind::Obj(es) => {
                d.open_object()?;
                for _ in 0..rng.below(es.len() + 1) {
                    assert!(d.next_entry()?);
                    d.skip_str()?;
                    d.skip_value()?;
                }
                bad("push_entry", d.push_entry(absent))?
            }
            _ => return Ok(false),
        },
        16 => match k {
            // extra entry
            Kind::Obj(es) if !es.is_empty() => {
                d.open_object()?;
                for _ in 0..rng.below(es.len()) {
                    assert!(d.next_entry()?);
                    d.skip_str()?;
                    d.skip_value()?;
                }
                if rng.chance(40) {
                    d.try_push_entry(absent)?;
                }
                bad("close_object", d.close_object())?
            }
            _ => return Ok(false),
        },
        17 => match k {
            // missing item
            Kind::Arr(vs) => {
                let tuple = rng.below(3);
                match tuple {
                    0 => {
                        d.open_list()?;
                    }
                    1 => d.open_tuple(None)?,
                    _ => d.open_struct(None)?,
                }
                let one = |d: &mut D<'s>| match tuple {
                    0 => d.push_item(),
                    1 => d.push_element(),
                    _ => d.push_field("alpha"),
                };
                for _ in vs {
                    one(d)?;
                    d.skip_value()?;
                }
                bad("push of a missing item", one(d))?
            }
            _ => return Ok(false),
        },
        18 => match k {
            // extra item
            Kind::Arr(vs) if !vs.is_empty() => {
                let tuple = rng.below(3);
                match tuple {
                    0 => {
                        d.open_list()?;
                    }
                    1 => d.open_tuple(None)?,
                    _ => d.open_struct(None)?,
                }
                for _ in 0..rng.below(vs.len()) {
                    match tuple {
                        0 => d.push_item()?,
                        1 => d.push_element()?,
                        _ => d.push_field("alpha")?,
                    }
                    d.skip_value()?;
                }
                bad(
                    "close with an extra item",
                    match tuple {
                        0 => d.close_list(),
                        1 => d.close_tuple(),
                        _ => d.close_struct(),
                    },
                )?
            }
            _ => return Ok(false),
        },
        19 => match k {
            // a field that is not there, read as something else than null
            Kind::Obj(_) => {
                d.open_struct(None)?;
                d.push_field("\u{1}none")?;
                match rng.below(5) {
                    0 => bad("get_u8 of a missing field", d.get_u8())?,
                    1 => bad("read_str of a missing field", d.read_str().map(|_| ()))?,
                    2 => bad("get_bool of a missing field", d.get_bool())?,
                    3 => bad("open_list of a missing field", d.open_list())?,
                    _ => bad("open_struct of a missing field", d.open_struct(None))?,
                }
            }
            _ => return Ok(false),
        },
        20 => match k {
            // a custom error after a nested value was read and the container closed
            Kind::Arr(vs) => {
                d.open_tuple(None)?;
                for _ in vs {
                    d.push_element()?;
                    d.skip_value()?;
                }
                d.close_tuple()?;
                bad("error", Err::<(), _>(d.error(custom())))?
            }
            _ => return Ok(false),
        },
        21 => match k {
            Kind::Str(s) => {
                // a string that is no single character, or is closed too early
                if s.chars().count() == 1 {
                    return Ok(false);
                }
                bad("get_char", d.get_char())?
            }
            _ => return Ok(false),
        },
        _ => return Ok(false),
    }
    Ok(true)
}

fn typed_errors(cx: &Cx) {
    let n = if cx.thorough { 60_000 } else { 6_000 };
    parallel(&cx.r, cx.threads, n, |th, job| {
        let mut rng = Rng::new(cx.seed ^ (job as u64) << 16 ^ 21);
        let g = Gen { size: rng.range(2, 14), container: true, ..Gen::default() };
        let s = gen::text(&g, &mut rng);
        let doc = run(&cx.t, &s, false);
        if doc.huge_exp {
            return;
        }
        let dup = has_duplicates(&doc);
        let absent = absent_keys(&doc.keys, &mut rng);
        for n in 0..doc.nodes.len() {
            for op in 0..OPS {
                let aside = rng.chance(50);
                let seed = rng.next() % 1_000_000;
                let desc = || format!("text={} value at {} operation {op} set_aside={aside} seed={seed}", quote(&s), doc.nodes[n].start);
                let mut r2 = Rng::new(seed);
                NOERR.with(|n| *n.borrow_mut() = None);
                cx.r.case(th, desc);
                let res = catch(|| -> Result<Option<bool>, E> {
                    let mut d = TextDeserializer::new(config(false), s.as_str())?;
                    let key = absent[r2.below(absent.len())].clone();
                    if let Err(e) = locate(&mut d, &doc, n, aside, dup, &key, &mut r2) {
                        // not what this property is about
                        let _ = e;
                        return Ok(None);
                    }
                    misread(&mut d, &doc, n, op, &mut r2, &key).map(Some)
                });
                match res {
                    Ok(Err(e)) => {
                        let got = offset(&s, e.position());
                        if got != Some(doc.nodes[n].start) {
                            cx.r.violation(
                                &format!("{:?} is positioned at {:?}, expected {}", e.message(), got, doc.nodes[n].start),
                                &desc(),
                            );
                        }
                        cx.r.distinct(hash(&s) ^ (n * 64 + op) as u64 ^ (aside as u64) << 40);
                        cx.r.count("typed_errors", 1);
                    }
                    // reads that do not fail are judged by other properties
                    Ok(Ok(_)) => {}
                    Err(_) => {}
                }
            }
        }
        cx.r.sample(|| s.clone());
    });
}

// ---------------------------------------------------------------------------------------------
// C02: any sequence of calls the protocol permits

#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    Value,
    Str,
    List,
    Tuple,
    Struct,
    Object,
}

/// Makes protocol-respecting calls at random up to the first error.
fn wild<R: TextReader>(d: &mut TextDeserializer<R>, rng: &mut Rng, keys: &[String], log: &mut Vec<&'static str>) -> Result<bool, DeserializeError<R::Position>> {
    let mut st = vec![S::Value];
    let key = |rng: &mut Rng| -> String {
        if !keys.is_empty() && rng.chance(70) {
            keys[rng.below(keys.len())].clone()
        } else {
            "absent".to_string()
        }
    };
    let friendly = rng.chance(80);
    let mut steps = 0;
    while let Some(top) = st.last().copied() {
        steps += 1;
        if steps > 400 {
            return Ok(false);
        }
        if rng.chance(3) {
            log.push("error");
            let _ = d.error("x".into());
            let _ = d.error_missing_item();
        }
        match top {
            S::Value => {
                let ty = d.peek_value_type();
                let op = if friendly && rng.chance(93) {
                    // something that fits the value
                    match ty {
                        ValueType::String => *rng.pick(&[14, 14, 13, 12, 15, 16, 17, 23]),
                        ValueType::Number => *rng.pick(&[8, 9, 10, 11, 4, 17, 23, 16]),
                        ValueType::Object => *rng.pick(&[21, 21, 20, 20, 23, 17]),
                        ValueType::Array => *rng.pick(&[19, 19, 22, 20, 17, 23]),
                        ValueType::Bool => *rng.pick(&[0, 0, 17, 23]),
                        ValueType::Null => *rng.pick(&[18, 17, 23]),
                    }
                } else {
                    rng.below(25)
                };
                macro_rules! call {
                    ($n:expr, $e:expr) => {{
                        log.push($n);
                        $e?;
                        st.pop();
                    }};
                }
                match op {
                    0 => call!("get_bool", d.get_bool()),
                    1 => call!("get_i8", d.get_i8()),
                    2 => call!("get_i16", d.get_i16()),
                    3 => call!("get_i32", d.get_i32()),
                    4 => call!("get_i64", d.get_i64()),
                    5 => call!("get_u8", d.get_u8()),
                    6 => call!("get_u16", d.get_u16()),
                    7 => call!("get_u32", d.get_u32()),
                    8 => call!("get_u64", d.get_u64()),
                    9 => call!("get_f32", d.get_f32()),
                    10 => call!("get_f64", d.get_f64()),
                    11 => {
                        if rng.chance(50) {
                            call!("read_number u128", d.read_number::<u128>())
                        } else {
                            call!("read_number i128", d.read_number::<i128>())
                        }
                    }
                    12 => call!("get_char", d.get_char()),
                    13 => call!("read_str", d.read_str().map(|_| ())),
                    14 => {
                        log.push("open_str");
                        d.open_str()?;
                        st.pop();
                        st.push(S::Str);
                    }
                    15 => call!("get_name", d.get_name(names())),
                    16 => call!("get_tag", d.get_tag(rng.below(4), names())),
                    17 => {
                        log.push("check_null");
                        if d.check_null()? {
                            st.pop();
                        }
                    }
                    18 => call!("pop_null", d.pop_null()),
                    19 => {
                        log.push("open_list");
                        d.open_list()?;
                        st.pop();
                        st.push(S::List);
                    }
                    20 => {
                        log.push("open_struct");
                        d.open_struct(Some("T"))?;
                        st.pop();
                        st.push(S::Struct);
                    }
                    21 => {
                        log.push("open_object");
                        d.open_object()?;
                        st.pop();
                        st.push(S::Object);
                    }
                    22 => {
                        log.push("open_tuple");
                        d.open_tuple(None)?;
                        st.pop();
                        st.push(S::Tuple);
                    }
                    23 => call!("skip_value", d.skip_value()),
                    _ => {
                        log.push("error_expected_type");
                        let _ = d.error_expected_type(&[ValueType::Bool, ValueType::Null]);
                    }
                }
            }
            S::Str => match rng.below(12) {
                0..=6 => {
                    log.push("next_char");
                    if d.next_char()?.is_none() {
                        st.pop();
                    }
                }
                7 | 8 => {
                    log.push("flush_str");
                    d.flush_str()?;
                    st.pop();
                }
                9 => {
                    log.push("skip_str");
                    d.skip_str()?;
                    st.pop();
                }
                10 => {
                    log.push("flush_name");
                    d.flush_name(names())?;
                    st.pop();
                }
                _ => {
                    log.push("close_str");
                    d.close_str()?;
                    st.pop();
                }
            },
            S::List => match rng.below(20) {
                0 => {
                    log.push("push_item");
                    d.push_item()?;
                    st.push(S::Value);
                }
                1 => {
                    log.push("close_list");
                    d.close_list()?;
                    st.pop();
                }
                2 => {
                    log.push("push_null");
                    d.push_null(if rng.chance(50) { Some("n") } else { None });
                    st.push(S::Value);
                }
                3 => {
                    log.push("error_extra_item");
                    let _ = d.error_extra_item();
                    assert!(d.peek_collection_type() == CollectionType::Array);
                }
                _ => {
                    log.push("next_item");
                    if d.next_item()? {
                        st.push(S::Value);
                    } else {
                        st.pop();
                    }
                }
            },
            S::Tuple => match rng.below(5) {
                0 => {
                    log.push("close_tuple");
                    d.close_tuple()?;
                    st.pop();
                }
                _ => {
                    log.push("push_element");
                    d.push_element()?;
                    st.push(S::Value);
                }
            },
            S::Struct => match rng.below(5) {
                0 | 1 => {
                    log.push("close_struct");
                    d.close_struct()?;
                    st.pop();
                }
                _ => {
                    log.push("push_field");
                    d.push_field(rng.pick::<&'static str>(STATIC_NAMES))?;
                    st.push(S::Value);
                }
            },
            S::Object => match rng.below(30) {
                0..=9 => {
                    log.push("try_push_entry");
                    if d.try_push_entry(&key(rng))? {
                        st.push(S::Value);
                    }
                }
                10 => {
                    log.push("push_entry");
                    d.push_entry(&key(rng))?;
                    st.push(S::Value);
                }
                11 => {
                    log.push("close_object");
                    d.close_object()?;
                    st.pop();
                }
                12 => {
                    log.push("skip_object");
                    d.skip_object()?;
                    st.pop();
                }
                13 | 14 => {
                    log.push("push_field");
                    d.push_field(rng.pick::<&'static str>(STATIC_NAMES))?;
                    st.push(S::Value);
                }
                15 => {
                    log.push("push_null");
                    d.push_null(if rng.chance(50) { Some("n") } else { None });
                    st.push(S::Value);
                }
                16 => {
                    log.push("error_extra_entry");
                    let _ = d.error_extra_entry("k".into());
                    let _ = d.error_missing_entry("k".into());
                }
                _ => {
                    log.push("next_entry");
                    if d.next_entry()? {
                        st.push(S::Value);
                        st.push(S::Str);
                    } else {
                        st.pop();
                    }
                }
            },
        }
    }
    Ok(true)
}

fn wild_case(cx: &Cx, th: usize, s: &str, comments: bool, keys: &[String], seed: u64, utf8: bool) {
    cx.r.case(th, || format!("calls text={} comments={comments} seed={seed} bytes={utf8}", quote(s)));
    let mut log = Vec::new();
    let r = catch(|| {
        let mut rng = Rng::new(seed);
        if utf8 {
            let rd = Utf8Reader::new(Chunks::new(s.as_bytes(), rng.fork())).unwrap();
            if let Ok(mut d) = TextDeserializer::new(config(comments), rd) {
                if let Ok(true) = wild(&mut d, &mut rng, keys, &mut log) {
                    let _ = d.close();
                }
            }
        } else if let Ok(mut d) = TextDeserializer::new(config(comments), s) {
            if let Ok(true) = wild(&mut d, &mut rng, keys, &mut log) {
                let _ = d.close();
            }
        }
    });
    if let Err(p) = r {
        cx.r.violation(
            &format!("panic: {p}"),
            &format!("text={} comments={comments} seed={seed} bytes={utf8} calls={log:?}", quote(s)),
        );
    }
}

fn wild_all(cx: &Cx) {
    let n = if cx.thorough { 6_000_000 } else { 600_000 };
    parallel(&cx.r, cx.threads, n / 32, |th, job| {
        let mut rng = Rng::new(cx.seed ^ (job as u64) << 16 ^ 2);
        let mut seen = HashSet::new();
        for _ in 0..32 {
            let comments = rng.chance(20);
            let g = Gen {
                size: rng.range(1, 20),
                distinct: rng.chance(80),
                comments: if comments { 30 } else { 0 },
                container: rng.chance(85),
                ..Gen::default()
            };
            let mut s = gen::text(&g, &mut rng);
            if rng.chance(40) {
                s = gen::mutate(&cx.t, &s, &mut rng);
            }
            let doc = run(&cx.t, &s, comments);
            for _ in 0..6 {
                let seed = rng.next() % 1_000_000_000;
                wild_case(cx, th, &s, comments, &doc.keys, seed, seed % 5 == 0);
            }
            typed(cx, th, &s);
            seen.insert(hash(&s));
        }
        cx.r.distinct_all(&seen);
    });
}

#[derive(Deserialize)]
#[allow(dead_code)]
enum Plain {
    Alpha,
    Beta,
}

#[derive(Deserialize)]
#[allow(dead_code)]
struct Inner {
    a: u8,
    b: Option<Vec<String>>,
    #[serde(default)]
    k: Vec<Plain>,
}

#[derive(Deserialize)]
#[allow(dead_code)]
struct Outer {
    #[serde(flatten)]
    inner: Inner,
    x: (f32, [char; 2]),
    aa: Plain,
    ab: Tagged,
}

#[derive(Deserialize)]
#[serde(tag = "type")]
#[allow(dead_code)]
enum Tagged {
    One { a: i64, b: String },
    Two { a: bool },
}

/// Reads a text as every supported type.
fn typed(cx: &Cx, th: usize, s: &str) {
    macro_rules! one {
        ($($t:ty),*) => { $(
            cx.r.case(th, || format!("type {} text={}", stringify!($t), quote(s)));
            if let Err(p) = catch(|| {
                let _ = serdere_json::from_str::<$t>(s);
                if s.len() % 3 == 0 {
                    if let Ok(r) = Utf8Reader::new(s.as_bytes()) {
                        let _ = serdere_json::from_reader::<_, $t>(r);
                    }
                }
            }) {
                cx.r.violation(&format!("panic: {p}"), &format!("from_str::<{}> text={}", stringify!($t), quote(s)));
            }
        )* };
    }
    one!(
        (), bool, i8, i16, i32, i64, u8, u16, u32, u64, f32, f64, char, String, Vec<u8>, Vec<String>,
        Vec<Vec<f64>>, (u8, String), (bool, u64, char), [i32; 3], [Option<u8>; 2], Option<u8>,
        Option<Option<u8>>, Option<Vec<Option<String>>>, std::num::NonZeroU8, std::num::NonZeroI64,
        Inner, Outer, Plain, Tagged, Vec<Inner>, Vec<Plain>, Vec<Tagged>, Option<Tagged>
    );
}

fn scalars(cx: &Cx) {
    // every kind of scalar text, as every type
    let n = if cx.thorough { 30_000 } else { 3_000 };
    parallel(&cx.r, cx.threads, n / 16, |th, job| {
        let mut rng = Rng::new(cx.seed ^ (job as u64) << 16 ^ 3);
        for _ in 0..16 {
            let mut s = String::new();
            let mut items = rng.range(1, 4);
            let wrap = rng.below(4);
            if wrap == 0 {
                items = 1;
            }
            if wrap > 0 {
                s.push('[');
            }
            for i in 0..items {
                if i > 0 {
                    s.push(',');
                }
                match rng.below(6) {
                    0 => s.push_str(&gen::text(&Gen { size: 4, ..Gen::default() }, &mut rng)),
                    1 => {
                        // exponents of any size
                        gen::number(&mut rng, &mut s);
                        let neg = rng.chance(50);
                        if !s.ends_with('}') && !s.contains(['e', 'E']) {
                            let big = [0u64, 1, 19, 20, 38, 39, 308, 400, 32767, 32768, 65536, 2147483647, 2147483648, 4294967296, u64::MAX];
                            s.push_str(&format!("e{}{}", if neg { "-" } else { "" }, rng.pick(&big)));
                        }
                    }
                    2 => s.push_str(&u128::MAX.to_string()[..rng.range(1, 39)]),
                    3 => {
                        let c = gen::any_char(&mut rng);
                        gen::quoted(&c.to_string(), &mut rng, &mut s);
                    }
                    4 => s.push_str(rng.pick::<&str>(&["\"alpha\"", "\"Alpha\"", "0", "1", "2", "18446744073709551615", "-1", "\"\""])),
                    _ => {
                        let t = gen::chars(&Gen::default(), &mut rng);
                        gen::quoted(&t, &mut rng, &mut s);
                    }
                }
            }
            if wrap > 0 {
                s.push(']');
            }
            if rng.chance(15) {
                s = gen::mutate(&cx.t, &s, &mut rng);
            }
            typed(cx, th, &s);
            cx.r.distinct(hash(&s));
        }
    });
}

fn main() {
    let args = Args::parse();
    let threads = args.opt("threads").map(|t| t.parse().unwrap()).unwrap_or(8);
    let table = Table::load(&args.lines("table")[0]);
    let cx = Cx {
        t: table,
        prop: args.get("prop").to_string(),
        r: Report::new(&args, threads),
        seed: args.seed(),
        thorough: args.thorough(),
        threads,
    };
    let th = cx.thorough;
    let len = if th { 3 } else { 2 };
    let more = if matches!(cx.prop.as_str(), "C02" | "C18" | "C22") { 4 } else { 2 };
    let n = |quick: usize, thorough: usize| if th { thorough } else { quick * more };
    match cx.prop.as_str() {
        "C01" => {
            let modes = ["stream", "skip", "aside", "mixed"];
            wmethod(&cx, false, 1, len, &modes, 5, |_| true);
            wmethod(&cx, false, 2, 1, &modes, 5, |_| true);
            wmethod(&cx, false, if th { 6 } else { 4 }, 1, &["aside", "mixed"], 5, |_| true);
            random_texts(&cx, n(600_000, 12_000_000), Gen::default(), false, 70, &["stream", "skip", "aside", "mixed", "mixed"], 10);
            random_texts(&cx, n(7_500, 120_000), Gen { size: 200, depth: 9, distinct: false, ..Gen::default() }, false, 60, &modes, 10);
            large_texts(&cx, &modes, false);
        }
        "C02" => {
            wild_all(&cx);
            scalars(&cx);
            wmethod(&cx, false, 1, 1, &["stream", "aside", "mixed"], 30, |_| true);
            wmethod(&cx, true, 1, 1, &["aside", "mixed"], 30, |_| true);
            wmethod(&cx, false, 3, 1, &["aside", "mixed"], 30, |_| true);
            random_texts(&cx, n(100_000, 1_600_000), Gen { distinct: false, ..Gen::default() }, false, 60, &["mixed", "mixed"], 30);
            large_texts(&cx, &["stream", "skip", "aside", "mixed"], false);
        }
        "C05" => {
            skipping(&cx);
            random_texts(&cx, n(150_000, 3_200_000), Gen { container: true, size: 20, ..Gen::default() }, false, 0, &["skip", "mixed", "mixed"], 15);
            large_texts(&cx, &["skip", "mixed", "aside"], false);
        }
        "C08" => {
            let modes = ["stream", "chars", "aside", "asidechars", "mixed"];
            wmethod(&cx, false, 1, len, &modes, 10, |q| q.starts_with("v.") || q.starts_with("k."));
            random_texts(&cx, n(100_000, 2_000_000), Gen { size: 4, ..Gen::default() }, false, 30, &modes, 15);
            requests(&cx);
            large_texts(&cx, &modes, false);
        }
        "C18" => {
            wmethod(&cx, false, 1, len, &["stream", "mixed"], 0, |_| true);
            wmethod(&cx, true, 1, 1, &["aside", "mixed"], 0, |_| true);
            random_texts(&cx, n(100_000, 1_600_000), Gen { space: 60, ..Gen::default() }, false, 50, &["stream", "aside", "mixed"], 0);
            random_texts(&cx, n(50_000, 800_000), Gen { space: 60, comments: 40, ..Gen::default() }, true, 50, &["stream", "aside", "mixed"], 0);
            readers(&cx);
            large_texts(&cx, &["stream", "chars"], true);
        }
        "C21" => {
            let modes = ["stream", "chars", "skip", "aside", "mixed"];
            wmethod(&cx, false, 1, len, &modes, 0, |_| true);
            wmethod(&cx, true, 1, 1, &modes, 0, |_| true);
            random_texts(&cx, n(150_000, 2_800_000), Gen::default(), false, 100, &modes, 0);
            random_texts(&cx, n(50_000, 1_200_000), Gen { comments: 40, ..Gen::default() }, true, 100, &modes, 0);
            wmethod(&cx, false, if th { 5 } else { 3 }, 1, &["aside", "mixed"], 0, |_| true);
            wmethod(&cx, true, 2, 1, &["aside", "mixed"], 0, |_| true);
            typed_errors(&cx);
        }
        "C26" => {
            let modes = ["stream", "chars", "skip", "aside", "mixed"];
            wmethod(&cx, false, 1, len, &modes, 25, |_| true);
            wmethod(&cx, true, 1, 1, &modes, 25, |_| true);
            wmethod(&cx, true, if th { 4 } else { 2 }, 1, &["aside", "mixed"], 25, |_| true);
            random_texts(&cx, n(100_000, 2_000_000), Gen { space: 40, ..Gen::default() }, false, 100, &modes, 30);
            random_texts(&cx, n(50_000, 1_000_000), Gen { space: 40, comments: 40, ..Gen::default() }, true, 100, &modes, 30);
        }
        "C22" => {
            let modes = ["stream", "skip", "aside", "mixed", "asidechars"];
            wmethod(&cx, true, 1, len, &modes, 5, |q| q.starts_with('c') || q.len() <= 2);
            wmethod(&cx, true, if th { 5 } else { 3 }, 1, &["aside", "mixed"], 5, |q| q.starts_with('c') || q.len() <= 2);
            wmethod(&cx, false, 1, 1, &modes, 5, |q| !q.starts_with('l'));
            random_texts(&cx, n(200_000, 3_200_000), Gen { comments: 60, space: 50, ..Gen::default() }, true, 25, &modes, 10);
            random_texts(&cx, n(100_000, 1_200_000), Gen { comments: 10, space: 20, ..Gen::default() }, false, 25, &modes, 10);
            large_texts(&cx, &modes, true);
        }
        p => panic!("unknown property {p}"),
    }
    cx.r.finish();
}
