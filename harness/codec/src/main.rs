//! Holds the types of spec/CodecTypes against the specification: what they write, the calls they
//! make, and what they read.
mod abs;
mod doc;
mod run;
mod tape;
#[allow(clippy::all)]
mod types;

use abs::{place, text, A};
use doc::Doc;
use harness::json::{quote, J};
use harness::report::{catch, hash, parallel, save, Args, Report};
use harness::rng::Rng;
use run::{Entry, Fault, Play, WriteHow};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use tape::Call;

const THREADS: usize = 8;

struct Ctx<'a> {
    report: &'a Arc<Report>,
    prop: &'a str,
    entries: &'a [Entry],
    descs: &'a [J],
    vals: &'a HashMap<String, Vec<String>>,
}

/// Whether a type has a part of one of the kinds.
fn has(t: &J, f: &impl Fn(&J) -> bool) -> bool {
    f(t) || t.opt("t").is_some_and(|t| has(t, f))
        || t.opt("ts").is_some_and(|ts| ts.arr().iter().any(|t| has(t, f)))
        || t.opt("fs").is_some_and(|fs| fs.arr().iter().any(|x| has(x.get("t"), f)))
        || t.opt("vs").is_some_and(|vs| vs.arr().iter().any(|v| v.get("fs").arr().iter().any(|x| has(x.get("t"), f))))
}
fn kind(t: &J, k: &str) -> bool {
    has(t, &|t| t.get("k").str() == k)
}

fn relevant(prop: &str, t: &J) -> bool {
    match prop {
        "C12" => kind(t, "opt"),
        "C13" => kind(t, "struct"),
        "C14" => kind(t, "enum"),
        "C23" => kind(t, "arr") || kind(t, "tup"),
        "C24" => has(t, &|t| t.get("k").str() == "prim" && matches!(t.get("p").str(), "leaf" | "even") || t.get("k").str() == "prim" && t.get("p").str().starts_with("nz")),
        _ => true,
    }
}

fn calls(j: &J) -> Vec<Call> {
    j.arr().iter().map(|c| (c.arr()[0].str().to_string(), text(c.arr()[1].str()))).collect()
}
fn strings(j: &J) -> Vec<String> {
    j.arr().iter().map(|s| s.str().to_string()).collect()
}
fn show_calls(c: &[Call]) -> String {
    c.iter().map(|c| if c.1.is_empty() { c.0.clone() } else { format!("{} {}", c.0, c.1) }).collect::<Vec<_>>().join(", ")
}

const HOWS: [WriteHow; 6] = [
    WriteHow::Str,
    WriteHow::Indent("  "),
    WriteHow::Indent("\t"),
    WriteHow::Indent(""),
    WriteHow::Bytes,
    WriteHow::BytesIndent(" "),
];

impl Ctx<'_> {
    fn bad(&self, what: String, case: &str) {
        self.report.violation(&what, case);
    }

    /// A value that was written, checked in every way.
    fn value(&self, t: usize, e: &Entry, v: &A, spec: Option<&J>, rng: &mut Rng, texts: Option<&Mutex<Texts>>) {
        let d = &self.descs[e.id as usize - 1];
        let case = format!("type {} {}: value {}", e.id, cut(e.desc), v.show());
        self.report.case(t, || case.clone());
        let Some(w) = &e.writer else { return };
        if (e.reader.con)(v) != *v {
            panic!("the harness does not represent {case}");
        }
        let p = self.prop;
        if p != "C16" {
            for how in HOWS {
                let r = catch(|| (w.json)(v, how));
                let (out, log) = match r {
                    Ok(x) => x,
                    Err(m) => return self.bad(format!("writing as {how:?} panicked: {m}"), &case),
                };
                if p == "C24" {
                    if let Some(s) = spec {
                        let owed = strings(s.get("log"));
                        if log != owed {
                            return self.bad(format!("writing as {how:?} showed the context {log:?} instead of {owed:?}"), &case);
                        }
                    }
                    if how == WriteHow::Str {
                        match catch(|| (e.reader.json)(&out, None)) {
                            Ok(Ok((_, l))) if l == log => {}
                            Ok(Ok((_, l))) => return self.bad(format!("reading showed the context {l:?}, writing {log:?}"), &case),
                            _ => {}
                        }
                    }
                    continue;
                }
                if p == "C14" {
                    if let Some(s) = spec {
                        let owed = Doc::load(s.get("doc"));
                        if Doc::parse(&out).as_ref() != Some(&owed) {
                            return self.bad(format!("written as {out:?} where {:?} is owed", owed.render(None)), &case);
                        }
                    }
                }
                if p == "C13" {
                    break;
                }
                if let (Some(x), "C12", WriteHow::Str) = (texts, p, how) {
                    self.distinct_text(x, format!("{} text {out}", e.id), v, &case);
                }
                for chunks in [None, Some(rng.fork())] {
                    let by = if chunks.is_none() { "a string" } else { "a byte stream" };
                    match catch(|| (e.reader.json)(&out, chunks)) {
                        Ok(Ok((r, _))) if r == *v => {}
                        Ok(Ok((r, _))) => return self.bad(format!("{out:?} from {by} was read as {}", r.show()), &case),
                        Ok(Err(f)) => return self.bad(format!("{out:?} from {by} was refused: {}", f.show), &case),
                        Err(m) => return self.bad(format!("reading {out:?} from {by} panicked: {m}"), &case),
                    }
                }
            }
        }
        self.report.distinct(hash(&case));
        if matches!(p, "C16" | "C12" | "C24") {
            for nulls in [false, true] {
                if let Some(s) = spec {
                    let owed = calls(s.get(if nulls { "nulls" } else { "plain" }));
                    self.tape(t, e, d, v, nulls, &owed, &strings(s.get("log")), &case, rng, texts);
                }
            }
        }
    }

    fn distinct_text(&self, x: &Mutex<Texts>, key: String, v: &A, case: &str) {
        let mut x = x.lock().unwrap();
        if let Some(o) = x.get(&key) {
            if o != v {
                self.bad(format!("written exactly like the value {}", o.show()), case);
            }
        } else {
            x.insert(key, v.clone());
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn tape(&self, t: usize, e: &Entry, d: &J, v: &A, nulls: bool, owed: &[Call], log: &[String], case: &str, rng: &mut Rng, texts: Option<&Mutex<Texts>>) {
        let w = e.writer.as_ref().unwrap();
        let p = self.prop;
        let n = if nulls { "with" } else { "without" };
        let got = match catch(|| (w.tape)(v, nulls, None)) {
            Ok(x) => x,
            Err(m) => return self.bad(format!("writing to a format {n} nulls panicked: {m}"), case),
        };
        if p == "C24" {
            if got.log != log {
                self.bad(format!("writing to a format {n} nulls showed the context {:?} instead of {log:?}", got.log), case);
            }
        } else if p == "C12" {
            if let Some(x) = texts {
                self.distinct_text(x, format!("{} nulls {nulls} {:?}", e.id, got.calls), v, case);
            }
        } else {
            if got.calls != owed {
                return self.bad(format!("the calls to a format {n} nulls were\n      {}\n    instead of\n      {}", show_calls(&got.calls), show_calls(owed)), case);
            }
            self.report.count("calls_compared", owed.len() as u64);
            for k in 1..=got.raw {
                if got.raw > 60 && !rng.chance(20) {
                    continue;
                }
                self.report.beat(t);
                match catch(|| (w.tape)(v, nulls, Some(k))) {
                    Ok(x) if !x.failed => return self.bad(format!("the failure of call {k} of {} (format {n} nulls) did not come out", got.raw), case),
                    Ok(x) if x.after > 0 => return self.bad(format!("after the failure of call {k} of {} (format {n} nulls) the format was still used", got.raw), case),
                    Ok(_) => {}
                    Err(m) => return self.bad(format!("panic when call {k} of {} (format {n} nulls) failed: {m}", got.raw), case),
                }
                self.report.count("failures_injected", 1);
            }
        }
        let tags = owed.iter().filter(|c| c.0 == "tag").count();
        let mut raw = 0;
        for (lengths, by_index) in [(false, false), (true, true), (false, true), (true, false)] {
            if by_index && tags == 0 && lengths {
                continue;
            }
            let play = Play { nulls, lengths, by_index, ..Play::default() };
            let r = match catch(|| (e.reader.tape)(owed, &play)) {
                Ok(r) => r,
                Err(m) => return self.bad(format!("reading with {play:?} panicked: {m}"), case),
            };
            raw = r.raw;
            if p == "C24" {
                if r.log != log {
                    return self.bad(format!("reading with {play:?} showed the context {:?} instead of {log:?}", r.log), case);
                }
                continue;
            }
            if let Some(s) = r.stray {
                return self.bad(format!("reading with {play:?} made the call {s}"), case);
            }
            if r.res != Ok(v.clone()) {
                return self.bad(format!("reading with {play:?} gave {:?}", r.res.map(|v| v.show())), case);
            }
            if r.rest > 0 {
                return self.bad(format!("reading with {play:?} left {} calls unread", r.rest), case);
            }
        }
        if p != "C16" {
            return;
        }
        let play = Play { nulls, ..Play::default() };
        for k in 1..=raw {
            if raw > 60 && !rng.chance(20) {
                continue;
            }
            self.report.beat(t);
            // the last way above is with lengths, by name
            let play = Play { lengths: true, fail_at: Some(k), ..play.clone() };
            match catch(|| (e.reader.tape)(owed, &play)) {
                Ok(r) if r.res != Err(format!("injected {k}")) => return self.bad(format!("reading with {play:?}: the failure came out as {:?}", r.res.map(|v| v.show())), case),
                Ok(r) if r.after > 0 => return self.bad(format!("reading with {play:?}: the format was still used after the failure"), case),
                Ok(_) => {}
                Err(m) => return self.bad(format!("reading with {play:?} panicked: {m}"), case),
            }
            self.report.count("failures_injected", 1);
        }
        for k in 0..tags {
            for by_index in [false, true] {
                let play = Play { by_index, bad_tag: Some(k), ..play.clone() };
                let want = if by_index { "custom:index" } else { "custom:name" };
                match catch(|| (e.reader.tape)(owed, &play)) {
                    Ok(r) if r.res != Err(want.to_string()) => return self.bad(format!("reading with {play:?} (an undeclared tag) gave {:?}", r.res.map(|v| v.show())), case),
                    Ok(r) if r.after > 0 => return self.bad(format!("reading with {play:?}: the format was still used after an undeclared tag"), case),
                    Ok(_) => {}
                    Err(m) => return self.bad(format!("reading with {play:?} panicked: {m}"), case),
                }
            }
        }
        let _ = d;
    }

    /// What was read against what is owed.
    fn judge(&self, r: Result<Result<(A, Vec<String>), Fault>, String>, f: &[String], v: &A, log: &[String], doc: &Doc, by: &str, case: &str) {
        let r = match r {
            Err(m) => return self.bad(format!("reading from {by} panicked: {m}"), case),
            Ok(r) => r,
        };
        if self.prop == "C24" {
            match &r {
                Ok((_, l)) if f.is_empty() => {
                    if l != log {
                        self.bad(format!("reading from {by} showed the context {l:?} instead of {log:?}"), case);
                    }
                }
                Ok((r, _)) if f.iter().all(|f| f.starts_with("custom:zero") || f.starts_with("custom:odd")) => {
                    self.bad(format!("reading from {by} gave {} where the validation fails with {f:?}", r.show()), case)
                }
                Err(x) if x.name.starts_with("custom") && !f.contains(&x.name) => {
                    self.bad(format!("reading from {by} failed with {} ({})", x.name, x.show), case)
                }
                Err(x) if !f.is_empty() && f.iter().all(|f| f.starts_with("custom")) && !f.contains(&x.name) => {
                    self.bad(format!("reading from {by} failed with {} ({}) instead of {f:?}", x.name, x.show), case)
                }
                _ => {}
            }
            if let Err(Fault { odd: Some(n), .. }) = &r {
                if !doc.any(&mut |d| *d == Doc::Num(n.to_string())) {
                    self.bad(format!("the error from {by} says that {n} is odd"), case);
                }
            }
            return;
        }
        match r {
            Ok((r, _)) if f.is_empty() => {
                if r != *v {
                    self.bad(format!("from {by} the value {} was read instead of {}", r.show(), v.show()), case);
                }
            }
            Ok((r, _)) => self.bad(format!("from {by} the value {} was read where an error is owed: {f:?}", r.show()), case),
            Err(x) if f.is_empty() => self.bad(format!("reading from {by} failed ({}) instead of giving {}", x.show, v.show()), case),
            Err(x) if !f.contains(&x.name) => self.bad(format!("reading from {by} failed with {} ({}) instead of {f:?}", x.name, x.show), case),
            Err(_) => {}
        }
    }
}

type Texts = HashMap<String, A>;

fn cut(s: &str) -> String {
    s.chars().take(200).collect()
}

/// A random value of a type, from the specification's values of the primitives or from all.
fn random(t: &J, vals: &HashMap<String, Vec<String>>, wild: bool, rng: &mut Rng) -> A {
    random_long(t, vals, wild, wild, rng)
}
/// Perhaps with long lists.
fn random_long(t: &J, vals: &HashMap<String, Vec<String>>, wild: bool, long: bool, rng: &mut Rng) -> A {
    let random = |t: &J, vals: &HashMap<String, Vec<String>>, wild: bool, rng: &mut Rng| random_long(t, vals, wild, long, rng);
    match t.get("k").str() {
        "prim" => {
            let p = t.get("p").str();
            if wild && rng.chance(70) {
                return A::Lit(random_prim(p, rng));
            }
            A::Lit(rng.pick(&vals[p]).clone())
        }
        "unit" => A::Unit,
        "opt" => {
            if rng.chance(35) {
                A::None
            } else {
                A::Some(Box::new(random(t.get("t"), vals, wild, rng)))
            }
        }
        "vec" => {
            let n = if long && rng.chance(if wild { 3 } else { 12 }) {
                if rng.chance(90) { rng.range(5, 60) } else { *rng.pick(&[64, 127, 128, 129, 255, 256, 257, 300]) }
            } else {
                rng.below(5)
            };
            A::Seq((0..n).map(|_| random(t.get("t"), vals, wild, rng)).collect())
        }
        "arr" => A::Seq((0..t.get("n").int()).map(|_| random(t.get("t"), vals, wild, rng)).collect()),
        "tup" => A::Seq(t.get("ts").arr().iter().map(|t| random(t, vals, wild, rng)).collect()),
        "struct" => A::Rec(t.get("fs").arr().iter().map(|f| random(f.get("t"), vals, wild, rng)).collect()),
        _ => {
            let vs = t.get("vs").arr();
            let i = rng.below(vs.len());
            A::Var(i + 1, vs[i].get("fs").arr().iter().map(|f| random(f.get("t"), vals, wild, rng)).collect())
        }
    }
}

fn random_prim(p: &str, rng: &mut Rng) -> String {
    let n = rng.next() >> rng.below(64);
    let b = p.strip_prefix("nz_").unwrap_or(p);
    let s = match b {
        "bool" => (n % 2 == 0).to_string(),
        "i8" => (n as i8).to_string(),
        "i16" => (n as i16).to_string(),
        "i32" => (n as i32).to_string(),
        "i64" => (n as i64).to_string(),
        "u8" => (n as u8).to_string(),
        "u16" => (n as u16).to_string(),
        "u32" | "leaf" => (n as u32).to_string(),
        "u64" => n.to_string(),
        "even" => (n as u32 & !1).to_string(),
        "f32" => {
            let f = f32::from_bits(rng.next() as u32);
            if f.is_finite() && f != 0.0 { format!("{f:?}") } else { "0.0".into() }
        }
        "f64" => {
            let f = if rng.chance(30) { (n as i64) as f64 / 1000.0 } else { f64::from_bits(rng.next()) };
            if f.is_finite() && f != 0.0 { format!("{f:?}") } else { "0.0".into() }
        }
        "char" => random_char(rng).to_string(),
        _ => {
            let n = if rng.chance(3) { rng.range(50, 3000) } else { rng.below(8) };
            (0..n).map(|_| random_char(rng)).collect()
        }
    };
    if p.starts_with("nz_") && s == "0" {
        "1".into()
    } else {
        s
    }
}

fn random_char(rng: &mut Rng) -> char {
    match rng.below(6) {
        0 => char::from_u32(rng.below(128) as u32).unwrap(),
        1 => *rng.pick(&['"', '\\', '/', '\u{8}', '\n', '\u{7f}', '\u{2028}', '\u{ffff}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{feff}']),
        2 => char::from_u32(rng.below(0x800) as u32).unwrap(),
        3 => char::from_u32(0x10000 + rng.below(0x100000) as u32).unwrap(),
        _ => *rng.pick(&['a', 'b', 'z', ' ', '0', '{', '[', ':', ',']),
    }
}

const NUMS: [&str; 12] = ["0", "1", "2", "7", "100", "127", "255", "300", "-1", "-128", "0.5", "4294967295"];

/// Changes a document somewhere.  Entries with equal keys never come about.
fn mutate(d: &mut Doc, rng: &mut Rng) {
    let mut n = rng.below(d.size());
    let Some(p) = d.part(&mut n) else { return };
    match p {
        Doc::Obj(v) if rng.chance(80) => match rng.below(7) {
            0 => rng.shuffle(v),
            1 if !v.is_empty() => {
                let i = rng.below(v.len());
                v.remove(i);
            }
            2 => {
                let k = rng.pick(&["zz", "zzz", "", "x1", "é", "Type"]).to_string();
                if v.iter().all(|e| e.0 != k) {
                    let i = rng.below(v.len() + 1);
                    let x = scalar(rng);
                    v.insert(i, (k, Doc::Arr(vec![Doc::Obj(vec![("x".into(), x)])])));
                }
            }
            3 if !v.is_empty() => {
                let i = rng.below(v.len());
                let k = format!("{}{}", v[i].0, rng.pick(&["x", "_", " ", "0"]));
                if v.iter().all(|e| e.0 != k) {
                    v[i].0 = k;
                }
            }
            4 => *p = Doc::Arr(v.iter().map(|e| e.1.clone()).collect()),
            5 if v.len() > 1 => {
                let (i, j) = (rng.below(v.len()), rng.below(v.len()));
                let x = v[i].1.clone();
                v[j].1 = x;
            }
            _ => rng.shuffle(v),
        },
        Doc::Arr(v) if rng.chance(80) => match rng.below(4) {
            0 => rng.shuffle(v),
            1 if !v.is_empty() => {
                let i = rng.below(v.len());
                v.remove(i);
            }
            2 if !v.is_empty() => {
                let i = rng.below(v.len());
                let x = v[i].clone();
                v.insert(i, x);
            }
            _ => {
                let i = rng.below(v.len() + 1);
                let x = scalar(rng);
                v.insert(i, x);
            }
        },
        Doc::Str(s) if rng.chance(50) => match rng.below(3) {
            0 => s.push('x'),
            1 => *s = s.to_uppercase(),
            _ => {
                s.pop();
            }
        },
        p => *p = scalar(rng),
    }
}
fn scalar(rng: &mut Rng) -> Doc {
    match rng.below(6) {
        0 => Doc::Lit("null".into()),
        1 => Doc::Lit(rng.pick(&["true", "false"]).to_string()),
        2 => Doc::Str(rng.pick(&["", "a", "zz", "A", "Red"]).to_string()),
        3 => rng.pick(&[Doc::Arr(vec![]), Doc::Obj(vec![])]).clone(),
        _ => Doc::Num(rng.pick(&NUMS).to_string()),
    }
}
/// A string that is one character is only known to the specification as such when it is listed.
fn known_strings(d: &Doc) -> bool {
    !d.any(&mut |d| matches!(d, Doc::Str(s) if s.chars().count() == 1 && !["x", "😀", "\"", "é", "a"].contains(&s.as_str())
        || s.contains('<')))
}

fn main() {
    let args = Args::parse();
    let report = Report::new(&args, THREADS);
    let prop = args.get("prop").to_string();
    let entries = types::registry();
    let mut descs: BTreeMap<i64, J> = BTreeMap::new();
    let mut vals = HashMap::new();
    for j in args.lines("types") {
        if let Some(p) = j.opt("p") {
            vals.insert(p.str().to_string(), j.get("vals").arr().iter().map(|s| text(s.str())).collect::<Vec<_>>());
        } else {
            descs.insert(j.get("i").int(), j.get("t").clone());
        }
    }
    assert_eq!(descs.len(), entries.len(), "types.rs is out of date: run gen_types.py");
    for e in &entries {
        assert!(J::parse(e.desc) == descs[&e.id], "type {} is out of date: run gen_types.py", e.id);
    }
    let descs: Vec<J> = descs.into_values().collect();
    let cx = Ctx { report: &report, prop: &prop, entries: &entries, descs: &descs, vals: &vals };
    let seed = args.seed();
    let thorough = args.thorough();

    if prop == "C02" {
        // any document, well-formed or not, as any type: whatever comes out, nothing panics
        let total = if thorough { 4_000_000 } else { 200_000 };
        parallel(&report, THREADS, total, |t, n| {
            let mut rng = Rng::new(seed ^ 0x0202 ^ (n as u64) << 16);
            let i = rng.below(entries.len());
            let e = &entries[i];
            // mostly a document of the type itself
            let from = if rng.chance(80) { i } else { rng.below(entries.len()) };
            let v = random(&descs[from], &vals, true, &mut rng);
            let Some(w) = &entries[from].writer else { return };
            let Ok((s, _)) = catch(|| (w.json)(&v, *rng.pick(&HOWS))) else { return };
            let mut text = s;
            if let (true, Some(mut d)) = (rng.chance(70), Doc::parse(&text)) {
                for _ in 0..rng.below(4) {
                    mutate(&mut d, &mut rng);
                }
                text = d.render(Some(&mut rng));
            }
            if rng.chance(50) {
                let mut cs: Vec<char> = text.chars().collect();
                for _ in 0..1 + rng.below(3) {
                    let at = rng.below(cs.len() + 1);
                    let c = *rng.pick(&['{', '}', '[', ']', ',', ':', '"', '\\', 'u', 'n', 't', '-', '.', 'e', '0', '1', '9', ' ', '\0', 'é', '/', '*']);
                    match rng.below(4) {
                        0 => cs.truncate(at),
                        1 => cs.insert(at, c),
                        2 if at < cs.len() => cs[at] = c,
                        _ if at < cs.len() => {
                            cs.remove(at);
                        }
                        _ => cs.push(c),
                    }
                }
                text = cs.into_iter().collect();
            }
            let case = format!("type {} {}: text {:?}", e.id, cut(e.desc), text);
            report.case(t, || case.clone());
            let chunks = rng.chance(40).then(|| rng.fork());
            if let Err(m) = catch(|| (e.reader.json)(&text, chunks)) {
                cx.bad(format!("reading panicked: {m}"), &case);
            }
            report.distinct(hash(&case));
            report.count("texts_read_as_types", 1);
        });
        report.finish();
        return;
    }

    // values of the specification
    let enc = args.lines("enc");
    let mut by_type: Vec<Vec<&J>> = vec![vec![]; entries.len()];
    for j in &enc {
        by_type[j.get("i").int() as usize - 1].push(j);
    }
    parallel(&report, THREADS, entries.len(), |t, n| {
        if !relevant(&prop, &descs[n]) {
            return;
        }
        let mut rng = Rng::new(seed ^ (n as u64) << 20);
        let texts = Mutex::new(Texts::new());
        for j in &by_type[n] {
            cx.value(t, &entries[n], &A::load(j.get("v")), Some(j), &mut rng, Some(&texts));
            if report.stopped() {
                return;
            }
        }
        if let Some(j) = by_type[n].first() {
            report.sample(|| format!("type {}: {} -> {}", n + 1, A::load(j.get("v")).show(), Doc::load(j.get("doc")).render(None)));
        }
    });
    report.count("spec_values", enc.len() as u64);

    // documents of the specification
    if matches!(prop.as_str(), "C12" | "C13" | "C14" | "C23" | "C24") {
        for file in ["dec0", "dec1", "dec2", "dec3"] {
            let dec = args.lines(file);
            report.count("spec_documents", dec.len() as u64);
            parallel(&report, THREADS, dec.len().div_ceil(64), |t, b| {
                let mut rng = Rng::new(seed ^ hash(file) ^ (b as u64) << 24);
                for j in dec.iter().skip(b * 64).take(64) {
                    let i = j.get("i").int() as usize - 1;
                    if !relevant(&prop, &descs[i]) {
                        continue;
                    }
                    let e = &entries[i];
                    let d = Doc::load(j.get("d"));
                    let f: Vec<String> = strings(j.get("f"));
                    let v = A::load(j.get("v"));
                    let log = strings(j.get("log"));
                    let ways = if thorough { 5 } else { 2 };
                    for way in 0..ways {
                        let text = d.render(if way == 0 { None } else { Some(&mut rng) });
                        let chunks = (way % 2 == 1).then(|| rng.fork());
                        let by = if way % 2 == 1 { "a byte stream" } else { "a string" };
                        let case = format!("type {} {}: document {}", e.id, cut(e.desc), text);
                        report.case(t, || case.clone());
                        report.distinct(hash(&format!("{} {:?}", i, d)));
                        cx.judge(catch(|| (e.reader.json)(&text, chunks)), &f, &v, &log, &d, by, &case);
                    }
                }
            });
        }
    }

    // random values
    let some: Vec<usize> = (0..entries.len()).filter(|i| relevant(&prop, &descs[*i])).collect();
    if matches!(prop.as_str(), "C11" | "C12" | "C24") {
        let per = if thorough { 40000 } else { 2500 } / if prop == "C11" { 1 } else { 4 };
        parallel(&report, THREADS, some.len(), |t, n| {
            let i = some[n];
            let mut rng = Rng::new(seed ^ 0x77 ^ (i as u64) << 30);
            let texts = Mutex::new(Texts::new());
            for _ in 0..per {
                let v = random(&descs[i], &vals, true, &mut rng);
                cx.value(t, &entries[i], &v, None, &mut rng, Some(&texts));
                if report.stopped() {
                    return;
                }
            }
        });
    }

    // lists with more items than some narrower integer can count
    if prop == "C11" {
        let lists: Vec<usize> = (0..entries.len())
            .filter(|i| descs[*i].get("k").str() == "vec" && entries[*i].writer.is_some() && !kind(descs[*i].get("t"), "vec"))
            .collect();
        parallel(&report, THREADS, lists.len(), |t, n| {
            let i = lists[n];
            let mut rng = Rng::new(seed ^ 0x99 ^ (i as u64) << 30);
            let some: Vec<A> = (0..97).map(|_| random(descs[i].get("t"), &vals, false, &mut rng)).collect();
            let len = *rng.pick(&[65535usize, 65536, 65537, 70001, 131073]);
            let v = A::Seq((0..len).map(|k| some[(k + k / 97) % 97].clone()).collect());
            let case = format!("type {} {}: a list of {len} items", i + 1, cut(entries[i].desc));
            report.case(t, || case.clone());
            let w = entries[i].writer.as_ref().unwrap();
            let r = catch(|| {
                let (out, _) = (w.json)(&v, WriteHow::Str);
                [None, Some(Rng::new(7))].map(|chunks| (entries[i].reader.json)(&out, chunks).map(|r| r.0 == v))
            });
            match r {
                Err(m) => cx.bad(format!("panicked: {m}"), &case),
                Ok(rs) => {
                    for r in rs {
                        match r {
                            Ok(true) => {}
                            Ok(false) => cx.bad("read as another value".into(), &case),
                            Err(f) => cx.bad(format!("refused: {}", f.show), &case),
                        }
                    }
                }
            }
            report.distinct(hash(&case));
            report.count("long_lists", 1);
        });
    }

    // records for the specification to judge
    if prop != "C11" {
        let total = if thorough { 400_000 } else { 40_000 };
        let out: Mutex<Vec<(usize, String, String)>> = Mutex::new(vec![]);
        parallel(&report, THREADS, total, |t, n| {
            let mut rng = Rng::new(seed ^ 0x1234_5678 ^ (n as u64) << 16);
            let i = *rng.pick(&some);
            let e = &entries[i];
            let long = matches!(prop.as_str(), "C16" | "C24") && n % 20 == 0;
            let v = random_long(&descs[i], &vals, false, long, &mut rng);
            let nulls = rng.chance(50);
            let case = format!("type {} {}: value {}", e.id, cut(e.desc), v.show());
            if prop == "C16" {
                let Some(w) = &e.writer else { return };
                report.case(t, || case.clone());
                match catch(|| (w.tape)(&v, nulls, None)) {
                    Err(m) => cx.bad(format!("writing panicked: {m}"), &case),
                    Ok(x) => {
                        let calls: Vec<String> = x.calls.iter().map(|c| format!("[{},{}]", quote(&c.0), quote(&place(&c.1)))).collect();
                        let rec = format!("{{\"kind\":\"enc\",\"i\":{},\"nulls\":{nulls},\"v\":{},\"calls\":[{}]}}", e.id, v.show(), calls.join(","));
                        out.lock().unwrap().push((n, rec, format!("{case} (null literal: {nulls}): {}", show_calls(&x.calls))));
                        report.distinct(hash(&case));
                    }
                }
                return;
            }
            if prop == "C24" && (n % 4 == 0) {
                // what the context is shown when the value is written
                let Some(w) = &e.writer else { return };
                report.case(t, || case.clone());
                match catch(|| if rng.chance(50) { (w.tape)(&v, nulls, None).log } else { (w.json)(&v, *rng.pick(&HOWS)).1 }) {
                    Err(m) => cx.bad(format!("writing panicked: {m}"), &case),
                    Ok(log) => {
                        let log: Vec<String> = log.iter().map(|s| quote(s)).collect();
                        let rec = format!("{{\"kind\":\"seen\",\"i\":{},\"v\":{},\"log\":[{}]}}", e.id, v.show(), log.join(","));
                        out.lock().unwrap().push((n, rec, format!("{case}: the context is shown {log:?}")));
                        report.distinct(hash(&case));
                    }
                }
                return;
            }
            // a document by the specification's own hand is not at hand: take the one that is written
            let mut d = match &e.writer {
                Some(w) => match catch(|| (w.json)(&v, WriteHow::Str)) {
                    Ok((s, _)) => match Doc::parse(&s) {
                        Some(d) => d,
                        None => return,
                    },
                    Err(_) => return,
                },
                None => return,
            };
            for _ in 0..1 + rng.below(3) {
                mutate(&mut d, &mut rng);
            }
            if !known_strings(&d) {
                return;
            }
            let text = d.render(Some(&mut rng));
            let case = format!("type {} {}: document {}", e.id, cut(e.desc), text);
            report.case(t, || case.clone());
            let chunks = rng.chance(50).then(|| rng.fork());
            match catch(|| (e.reader.json)(&text, chunks)) {
                Err(m) => cx.bad(format!("reading panicked: {m}"), &case),
                // for the context, only what concerns it
                Ok(Err(f)) if prop == "C24" && !matches!(f.name.as_str(), "custom:zero" | "custom:odd") => {}
                Ok(r) => {
                    let (f, v, log, show) = match r {
                        Ok((v, log)) => (String::new(), v.clone(), log, format!("read as {}", v.show())),
                        Err(f) => (f.name.clone(), A::None, vec![], format!("refused: {}", f.name)),
                    };
                    let log: Vec<String> = log.iter().map(|s| quote(s)).collect();
                    let rec = format!(
                        "{{\"kind\":\"{}\",\"i\":{},\"d\":{},\"f\":{},\"v\":{},\"log\":[{}]}}",
                        if prop == "C24" { "ctx" } else { "dec" },
                        e.id, d.show(), quote(&f), v.show(), log.join(",")
                    );
                    out.lock().unwrap().push((n, rec, format!("{case} {show}")));
                    report.distinct(hash(&format!("{} {:?}", i, d)));
                }
            }
        });
        let mut out = out.into_inner().unwrap();
        out.sort();
        save("codec", out.into_iter().map(|(_, a, b)| (a, b)).collect());
    }
    let _ = cx.entries;
    let _ = cx.vals;
    report.finish();
}
