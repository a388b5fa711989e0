//! Conformance of the writer with the Ser and Sink specifications.
use harness::machine::Table;
use harness::report::{catch, hash, parallel, save, Args, Report};
use harness::rng::Rng;
use harness::visit::short;
use harness::writer::*;
use serdere::{Serialize, TextWriter, Utf8Writer, Value};
use serdere_json::{TextSerializer, TextSerializerConfig};
use std::cell::RefCell;
use std::io;
use std::rc::Rc;
use std::sync::Mutex;

const INDENTS: [Option<&str>; 8] =
    [None, Some("  "), Some("\t"), Some("    "), Some(""), Some(" \t"), Some(" "), Some("\t\t ")];

fn config(indent: Option<&'static str>) -> TextSerializerConfig {
    let mut c = TextSerializerConfig::default();
    c.indent = indent;
    c
}

/// Makes all calls; gives the text.
fn write(calls: &[Call], indent: Option<&'static str>, how: usize) -> Result<String, String> {
    catch(|| match how {
        0 => {
            let mut s = TextSerializer::new(config(indent), String::new());
            let mut open = Vec::new();
            for i in 0..calls.len() {
                perform(&mut s, calls, i, &mut open).unwrap();
            }
            s.close()
        }
        1 => {
            let mut s = TextSerializer::new(config(indent), String::new());
            let mut i = 0;
            Value::with(&mut s, |v| wrapped(v, calls, &mut i)).unwrap();
            assert!(i == calls.len());
            s.close()
        }
        2 => {
            let mut s = TextSerializer::new(config(indent), Utf8Writer::new(Vec::new()));
            let mut open = Vec::new();
            for i in 0..calls.len() {
                perform(&mut s, calls, i, &mut open).unwrap();
            }
            String::from_utf8(s.close().into_inner()).expect("the bytes written are UTF-8")
        }
        _ => {
            let mut out = String::new();
            let mut s = TextSerializer::new(config(indent), CharSink { out: &mut out, at: usize::MAX, n: 0, whole: false });
            let mut open = Vec::new();
            for i in 0..calls.len() {
                perform(&mut s, calls, i, &mut open).unwrap();
            }
            drop(s);
            out
        }
    })
    .map_err(|m| format!("panicked: {m}"))
}

fn flat(l: &[Line]) -> Vec<Tok> {
    l.iter().flat_map(|l| l.t.iter().cloned()).collect()
}

fn diff(prop: &str, table: &Table, calls: &[Call], owed: &[Line], indent: Option<&'static str>, text: &str) -> Option<String> {
    let got = match lines(table, text, indent, calls) {
        Ok(g) => g,
        // what is not JSON is not a matter of layout
        Err(_) if prop == "C10" && harness::machine::run(table, text, false).error.is_some() => return None,
        Err(_) if prop == "C09" && harness::machine::run(table, text, false).error.is_none() => {
            // what is well-formed but badly laid out is not a matter of content
            match lines(table, &text.replace(['\n', '\r'], " "), None, calls) {
                Ok(g) => g,
                Err(e) => return Some(e),
            }
        }
        Err(e) => return Some(e),
    };
    if prop == "C10" {
        let owed: Vec<Line> = match indent {
            None => vec![Line { d: 0, t: flat(owed) }],
            Some("") => owed.iter().map(|l| Line { d: 0, t: l.t.clone() }).collect(),
            Some(_) => owed.to_vec(),
        };
        let shape = |l: &[Line]| l.iter().map(|l| (l.d, l.t.iter().map(|t| t.s).collect::<Vec<_>>())).collect::<Vec<_>>();
        let (o, g) = (shape(&owed), shape(&got));
        if o != g {
            let i = (0..o.len().max(g.len())).find(|i| o.get(*i) != g.get(*i)).unwrap();
            return Some(format!("line {}: expected {:?}, got {:?}", i + 1, o.get(i), g.get(i)));
        }
    } else {
        let (o, g) = (flat(owed), flat(&got));
        if o != g {
            let i = (0..o.len().max(g.len())).find(|i| o.get(*i) != g.get(*i)).unwrap();
            return Some(format!("token {}: expected {:?}, got {:?}", i + 1, o.get(i), g.get(i)));
        }
    }
    None
}

// ---------------------------------------------------------------------------------------------
// Sinks

#[derive(Debug, Clone, Copy, PartialEq)]
enum Outcome {
    All,
    Some(usize),
    Interrupted,
    Fail,
}

#[derive(Debug, Clone)]
enum Plan {
    /// takes bytes up to an offset, then fails
    FailAt(usize),
    /// follows a script from the n-th write on, then takes all
    Script(usize, Vec<Outcome>),
    /// random
    Random(Rng),
    /// random, in large pieces
    Coarse(Rng),
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Ev {
    Call,
    Offer(usize),
    Took(usize),
    Intr,
    Fail,
    Ok(usize),
    Err,
    Wrong,
}

struct State {
    plan: Plan,
    /// the correct output
    correct: Vec<u8>,
    taken: Vec<u8>,
    writes: usize,
    failed: usize,
    offered_after: bool,
    kind: u8,
    log: Vec<Ev>,
}

#[derive(Clone)]
struct Faulty(Rc<RefCell<State>>);

impl io::Write for Faulty {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        let s = &mut *s;
        if s.failed > 0 {
            s.offered_after = true;
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let n = s.writes;
        s.writes += 1;
        let at = s.taken.len();
        let fits = s.correct.len() >= at + buf.len() && s.correct[at..at + buf.len()] == *buf;
        s.log.push(Ev::Offer(if fits { at } else { 1_000_000_000 }));
        let o = match &mut s.plan {
            Plan::FailAt(p) => {
                if at + buf.len() <= *p && *p > at {
                    Outcome::All
                } else if *p > at {
                    Outcome::Some(*p - at)
                } else {
                    Outcome::Fail
                }
            }
            Plan::Script(from, script) => {
                if n < *from {
                    Outcome::All
                } else {
                    script.get(n - *from).copied().unwrap_or(Outcome::All)
                }
            }
            Plan::Random(r) => match r.below(20) {
                0..=4 => Outcome::Interrupted,
                5..=9 => Outcome::Some(r.range(1, 3)),
                10 if r.chance(30) => Outcome::Fail,
                _ => Outcome::All,
            },
            Plan::Coarse(r) => match r.below(20) {
                0..=4 => Outcome::Interrupted,
                5..=15 => Outcome::Some(1 << r.below(18)),
                16 if r.chance(10) => Outcome::Fail,
                _ => Outcome::All,
            },
        };
        let k = match o {
            Outcome::All => buf.len(),
            Outcome::Some(k) => k.min(buf.len()),
            Outcome::Interrupted => {
                s.log.push(Ev::Intr);
                return Err(io::ErrorKind::Interrupted.into());
            }
            Outcome::Fail => {
                s.failed += 1;
                s.log.push(Ev::Fail);
                return fail(s.kind);
            }
        };
        s.taken.extend_from_slice(&buf[..k]);
        s.log.push(Ev::Took(k));
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn fail(kind: u8) -> io::Result<usize> {
    match kind % 5 {
        0 => Err(io::Error::new(io::ErrorKind::Other, "the sink failed")),
        1 => Err(io::Error::new(io::ErrorKind::BrokenPipe, "the sink failed")),
        2 => Err(io::Error::new(io::ErrorKind::WouldBlock, "the sink failed")),
        3 => Err(io::Error::from_raw_os_error(28)),
        // takes nothing: the caller has to notice
        _ => Ok(0),
    }
}

fn same_error(kind: u8, e: &io::Error) -> bool {
    match kind % 5 {
        0 => e.kind() == io::ErrorKind::Other && e.to_string() == "the sink failed",
        1 => e.kind() == io::ErrorKind::BrokenPipe && e.to_string() == "the sink failed",
        2 => e.kind() == io::ErrorKind::WouldBlock && e.to_string() == "the sink failed",
        3 => e.raw_os_error() == Some(28),
        _ => e.kind() == io::ErrorKind::WriteZero,
    }
}

fn faulty(plan: Plan, correct: &str, kind: u8) -> Faulty {
    Faulty(Rc::new(RefCell::new(State {
        plan,
        correct: correct.as_bytes().to_vec(),
        taken: Vec::new(),
        writes: 0,
        failed: 0,
        offered_after: false,
        kind,
        log: Vec::new(),
    })))
}

/// A character sink that fails at the n-th operation.
struct CharSink<'a> {
    out: &'a mut String,
    at: usize,
    n: usize,
    whole: bool,
}

#[derive(Debug, PartialEq)]
struct CharError(usize);
impl std::fmt::Display for CharError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "character {} refused", self.0)
    }
}
impl std::error::Error for CharError {}

impl TextWriter for CharSink<'_> {
    type Error = CharError;
    fn write_char(&mut self, ch: char) -> Result<(), CharError> {
        let n = self.n;
        self.n += 1;
        if n == self.at {
            return Err(CharError(n));
        }
        self.out.push(ch);
        Ok(())
    }
    fn write_str(&mut self, s: &str) -> Result<(), CharError> {
        if self.whole {
            let n = self.n;
            self.n += 1;
            if n == self.at {
                return Err(CharError(n));
            }
            self.out.push_str(s);
            return Ok(());
        }
        s.chars().try_for_each(|c| self.write_char(c))
    }
}

/// Makes the calls on a faulty sink; the first problem, if any.
fn faulted(
    calls: &[Call],
    indent: Option<&'static str>,
    correct: &str,
    ends: &[usize],
    plan: &Plan,
    kind: u8,
) -> (Option<String>, Vec<Ev>) {
    let sink = faulty(plan.clone(), correct, kind);
    let state = sink.0.clone();
    let res = catch(|| {
        let mut s = TextSerializer::new(config(indent), Utf8Writer::new(sink));
        let mut open = Vec::new();
        for i in 0..calls.len() {
            state.borrow_mut().log.push(Ev::Call);
            let r = perform(&mut s, calls, i, &mut open);
            let mut st = state.borrow_mut();
            match r {
                Ok(()) => {
                    st.log.push(Ev::Ok(ends[i]));
                    if st.failed > 0 {
                        return Some(format!("call {} ({}) hid the failure of the sink", i + 1, calls[i].a));
                    }
                    if st.taken.len() != ends[i] {
                        return Some(format!("call {} ({}) returned with {} bytes delivered of {}", i + 1, calls[i].a, st.taken.len(), ends[i]));
                    }
                }
                Err(e) => {
                    if st.failed == 0 {
                        st.log.push(Ev::Wrong);
                        return Some(format!("call {} ({}) failed although the sink did not: {e}", i + 1, calls[i].a));
                    }
                    if !same_error(st.kind, &e) {
                        st.log.push(Ev::Wrong);
                        return Some(format!("call {} ({}) returned another error than the sink: {e}", i + 1, calls[i].a));
                    }
                    st.log.push(Ev::Err);
                    break;
                }
            }
        }
        None
    });
    let st = state.borrow();
    let log = st.log.clone();
    let bad = match res {
        Err(m) => Some(format!("panicked: {m}")),
        Ok(Some(m)) => Some(m),
        Ok(None) => {
            if st.offered_after {
                Some("the sink was offered bytes after it had failed".into())
            } else if !correct.as_bytes().starts_with(&st.taken) {
                Some("what was delivered is not a prefix of the correct output".into())
            } else if st.failed == 0 && st.taken.len() != correct.len() {
                Some("not all of the output was delivered".into())
            } else {
                None
            }
        }
    };
    (bad, log)
}

#[derive(Serialize)]
struct Inner {
    name: String,
    list: Vec<Option<u8>>,
}

#[derive(Serialize)]
#[serde(tag = "kind")]
enum Choice {
    Empty,
    Filled { x: f64, inner: Inner },
    #[serde(transparent)]
    One(Inner),
}

#[derive(Serialize)]
enum Unit {
    A,
    #[serde(rename = "bé")]
    B,
}

#[derive(Serialize)]
struct Outer {
    id: u64,
    pair: (char, bool),
    #[serde(flatten)]
    inner: Inner,
    choices: Vec<Choice>,
    units: [Unit; 2],
    deep: Vec<Vec<Vec<i32>>>,
}

fn sample(r: &mut Rng) -> Outer {
    let inner = |r: &mut Rng| Inner { name: string(r), list: (0..r.below(4)).map(|_| r.chance(50).then(|| r.next() as u8)).collect() };
    Outer {
        id: r.next(),
        pair: (harness::gen::any_char(r), r.chance(50)),
        inner: inner(r),
        choices: (0..r.below(5))
            .map(|_| match r.below(3) {
                0 => Choice::Empty,
                1 => Choice::Filled { x: r.below(100) as f64 / 4.0, inner: inner(r) },
                _ => Choice::One(inner(r)),
            })
            .collect(),
        units: [Unit::A, Unit::B],
        deep: vec![vec![], vec![vec![], vec![r.next() as i32, 1]], vec![]],
    }
}

fn faulted_value<T>(v: &T, correct: &str, plan: &Plan, kind: u8) -> Option<String>
where
    T: Serialize<TextSerializer<Utf8Writer<Faulty>>> + ?Sized,
{
    faulted_writes(correct, plan, kind, |w| serdere_json::to_writer(w, v))
}

fn faulted_writes(correct: &str, plan: &Plan, kind: u8, write: impl FnOnce(Utf8Writer<Faulty>) -> io::Result<()>) -> Option<String> {
    let sink = faulty(plan.clone(), correct, kind);
    let state = sink.0.clone();
    let res = catch(|| write(Utf8Writer::new(sink)));
    let st = state.borrow();
    match res {
        Err(m) => return Some(format!("panicked: {m}")),
        Ok(Ok(())) if st.failed > 0 => return Some("the failure of the sink was hidden".into()),
        Ok(Err(e)) if st.failed == 0 => return Some(format!("failed although the sink did not: {e}")),
        Ok(Err(e)) if !same_error(st.kind, &e) => return Some(format!("another error than that of the sink: {e}")),
        _ => {}
    }
    if st.offered_after {
        return Some("the sink was offered bytes after it had failed".into());
    }
    if !correct.as_bytes().starts_with(&st.taken) {
        return Some("what was delivered is not a prefix of the correct output".into());
    }
    if st.failed == 0 && st.taken.len() != correct.len() {
        return Some("not all of the output was delivered".into());
    }
    None
}

fn codes(s: &str) -> String {
    format!("{:?}", s.chars().map(|c| c as u32).collect::<Vec<_>>())
}

fn main() {
    let args = Args::parse();
    let threads = 8;
    let rep = Report::new(&args, threads);
    let prop = args.get("prop").to_string();
    let seed = args.seed();
    let thorough = args.thorough();
    let mut vectors: Vec<Vector> = Vec::new();
    for f in ["full", "slim"] {
        vectors.extend(args.lines(f).iter().map(Vector::load));
    }
    rep.count("sessions_printed_by_spec", vectors.len() as u64);
    let n: usize = args.get("random").parse().unwrap();
    let n = if thorough { n * 20 } else { n };

    if prop == "C20" {
        let scripts: Vec<Vec<Outcome>> = std::fs::read_to_string(args.get("scripts"))
            .unwrap()
            .lines()
            .map(|l| {
                l.chars()
                    .map(|c| match c {
                        'a' => Outcome::All,
                        'i' => Outcome::Interrupted,
                        'f' => Outcome::Fail,
                        d => Outcome::Some(d.to_digit(10).unwrap() as usize),
                    })
                    .collect()
            })
            .collect();
        rep.count("scripts_printed_by_spec", scripts.len() as u64);
        // every character there is, alone: a failure at each of its bytes
        parallel(&rep, threads, 0x11_0000 / 0x400, |t, j| {
            let mut r = Rng::new(seed ^ (j as u64) << 30);
            for c in (j as u32 * 0x400..(j as u32 + 1) * 0x400).filter_map(char::from_u32) {
                // (that this is what the character is written as is C09's)
                let Ok(correct) = catch(|| serdere_json::to_str(&c)) else { continue };
                let kind = r.next() as u8;
                rep.case(t, || correct.clone());
                for p in 0..=correct.len() {
                    // (the quotes in turn)
                    if (p == 0 || p >= correct.len() - 1) && !r.chance(10) {
                        continue;
                    }
                    rep.count("faulty_characters", 1);
                    let plan = Plan::FailAt(p);
                    if let Some(m) = faulted_value(&c, &correct, &plan, kind) {
                        rep.violation(&m, &format!("to_writer {c:?} on a sink with {plan:?}"));
                    }
                }
            }
        });
        // long strings given to the writer itself
        parallel(&rep, threads, if thorough { 4000 } else { 400 }, |t, j| {
            let mut r = Rng::new(seed.wrapping_mul(31) ^ (j as u64) << 24);
            let mut pieces = Vec::new();
            for _ in 0..r.range(1, 4) {
                let c = *r.pick(&['x', '\u{e9}', '\u{fffd}', '\u{1f600}']);
                let n = *r.pick(&[0usize, 1, 15, 64, 255, 256, 1024, 4095, 4096, 8192, 16384, 32768, 65535, 65536, 70000]);
                pieces.push(std::iter::repeat_n(c, (n + r.below(3)) / c.len_utf8()).collect::<String>() + r.pick(&["", "y", "\u{e9}"]));
            }
            let correct = pieces.concat();
            let plan = match r.below(4) {
                0 => Plan::FailAt(r.below(correct.len() + 1)),
                1 => {
                    let ends: Vec<usize> = pieces.iter().scan(0, |at, p| { *at += p.len(); Some(*at) }).collect();
                    Plan::FailAt((*r.pick(&ends)).saturating_sub(r.below(6)))
                }
                _ => Plan::Coarse(r.fork()),
            };
            let kind = r.next() as u8;
            let lens: Vec<usize> = pieces.iter().map(String::len).collect();
            rep.case(t, || format!("pieces of {lens:?} bytes"));
            rep.count("faulty_long_strings", 1);
            let write = |mut w: Utf8Writer<Faulty>| {
                for p in &pieces {
                    match p.chars().next() {
                        Some(c) if c.len_utf8() == p.len() => w.write_char(c)?,
                        _ => w.write_str(p)?,
                    }
                }
                Ok(())
            };
            if let Some(m) = faulted_writes(&correct, &plan, kind, write) {
                rep.violation(&m, &format!("strings of {lens:?} bytes written to a sink with {plan:?}"));
            }
        });
        let recorded = Mutex::new(Vec::new());
        let step = if thorough { 1 } else { 60 };
        parallel(&rep, threads, vectors.len().div_ceil(step) + n, |t, j| {
            let mut r = Rng::new(seed.wrapping_mul(31) ^ (j as u64) << 10);
            let calls = if j < vectors.len().div_ceil(step) {
                let pick = j * step + r.below(step.min(vectors.len() - j * step));
                vectors[pick].instance(&mut r).0
            } else if r.chance(30) {
                // through to_writer and derived types
                let v = sample(&mut r);
                let correct = serdere_json::to_str(&v);
                rep.case(t, || correct.clone());
                let mut plans: Vec<Plan> = (0..=correct.len()).map(Plan::FailAt).collect();
                plans.extend((0..40).map(|_| Plan::Random(r.fork())));
                plans.extend((0..40).map(|_| Plan::Script(r.below(30), r.pick(&scripts).clone())));
                for p in plans {
                    rep.count("faulty_runs", 1);
                    if let Some(m) = faulted_value(&v, &correct, &p, r.next() as u8) {
                        rep.violation(&m, &format!("to_writer {} on a sink with {p:?}", short(&correct)));
                    }
                }
                return;
            } else {
                let size = r.range(1, 12);
                random_calls(&mut r, size)
            };
            let indent = *r.pick(&INDENTS);
            let case = |p: &Plan| format!("{} with indent {indent:?} on a sink with {p:?}", short(&show(&calls)));
            // what a sink without faults gets
            let mut ends = Vec::new();
            rep.case(t, || show(&calls));
            rep.distinct(hash(&show(&calls)));
            let correct = match catch(|| {
                let mut out = String::new();
                let mut s = TextSerializer::new(config(indent), &mut out);
                let mut open = Vec::new();
                for i in 0..calls.len() {
                    perform(&mut s, &calls, i, &mut open).unwrap();
                }
                drop(s);
                let mut s = TextSerializer::new(config(indent), Utf8Writer::new(faulty(Plan::FailAt(usize::MAX), &out, 0)));
                let mut open = Vec::new();
                for i in 0..calls.len() {
                    perform(&mut s, &calls, i, &mut open).unwrap();
                }
                drop(s);
                out
            }) {
                Ok(c) => c,
                Err(m) => {
                    rep.violation(&format!("panicked: {m}"), &show(&calls));
                    return;
                }
            };
            {
                let sink = faulty(Plan::FailAt(usize::MAX), &correct, 0);
                let state = sink.0.clone();
                let mut s = TextSerializer::new(config(indent), Utf8Writer::new(sink));
                let mut open = Vec::new();
                for i in 0..calls.len() {
                    let _ = perform(&mut s, &calls, i, &mut open);
                    ends.push(state.borrow().taken.len());
                }
                if state.borrow().taken != correct.as_bytes() {
                    rep.violation("a byte sink gets another output than a string", &show(&calls));
                    return;
                }
            }
            let writes = {
                let sink = faulty(Plan::FailAt(usize::MAX), &correct, 0);
                let state = sink.0.clone();
                let mut s = TextSerializer::new(config(indent), Utf8Writer::new(sink));
                let mut open = Vec::new();
                for i in 0..calls.len() {
                    let _ = perform(&mut s, &calls, i, &mut open);
                }
                let w = state.borrow().writes;
                w
            };
            let mut plans: Vec<Plan> = if correct.len() < 400 {
                (0..=correct.len()).map(Plan::FailAt).collect()
            } else {
                (0..400).map(|_| Plan::FailAt(r.below(correct.len() + 1))).collect()
            };
            let m = if thorough { 400 } else { 60 };
            plans.extend((0..m).map(|_| Plan::Script(r.below(writes + 1), r.pick(&scripts).clone())));
            plans.extend((0..m / 3).map(|_| Plan::Random(r.fork())));
            if j < 12 {
                // every script from the first write on
                plans.extend(scripts.iter().map(|s| Plan::Script(0, s.clone())));
            }
            for p in &plans {
                rep.count("faulty_runs", 1);
                rep.beat(t);
                let (bad, log) = faulted(&calls, indent, &correct, &ends, p, r.next() as u8);
                if let Some(m) = bad {
                    rep.violation(&m, &case(p));
                    return;
                }
                if log.len() < 400 && r.chance(if thorough { 4 } else { 8 }) {
                    recorded.lock().unwrap().push((log, case(p)));
                }
            }
            // character sinks
            for whole in [false, true] {
                let mut full = String::new();
                let total = {
                    let mut s = TextSerializer::new(config(indent), CharSink { out: &mut full, at: usize::MAX, n: 0, whole });
                    let mut open = Vec::new();
                    let mut bad = None;
                    for i in 0..calls.len() {
                        if let Err(e) = perform(&mut s, &calls, i, &mut open) {
                            bad = Some(e);
                        }
                    }
                    assert!(bad.is_none());
                    s.close().n
                };
                for at in 0..total.min(300) {
                    rep.count("faulty_runs", 1);
                    let mut out = String::new();
                    let res = catch(|| {
                        let mut s = TextSerializer::new(config(indent), CharSink { out: &mut out, at, n: 0, whole });
                        let mut open = Vec::new();
                        for i in 0..calls.len() {
                            if let Err(e) = perform(&mut s, &calls, i, &mut open) {
                                return (Some(e), s.close().n);
                            }
                        }
                        (None, s.close().n)
                    });
                    let bad = match res {
                        Err(m) => Some(format!("panicked: {m}")),
                        Ok((None, _)) => Some("the failure of the sink was hidden".to_string()),
                        Ok((Some(e), n)) if e != CharError(at) || n != at + 1 => Some(format!("{e}; {n} operations")),
                        _ if !full.starts_with(&out) => Some("what was delivered is not a prefix of the correct output".into()),
                        _ => None,
                    };
                    if let Some(m) = bad {
                        rep.violation(&m, &format!("{} on a character sink failing at {at}", short(&show(&calls))));
                        return;
                    }
                }
            }
            rep.sample(|| format!("{}: {correct}", show(&calls)));
        });
        let mut out: Vec<(String, String)> = recorded
            .into_inner()
            .unwrap()
            .into_iter()
            .map(|(log, case)| {
                let ev: Vec<String> = log
                    .iter()
                    .map(|e| {
                        let (e, n) = match e {
                            Ev::Call => ("call", 0),
                            Ev::Offer(n) => ("offer", *n),
                            Ev::Took(n) => ("took", *n),
                            Ev::Intr => ("intr", 0),
                            Ev::Fail => ("fail", 0),
                            Ev::Ok(n) => ("ok", *n),
                            Ev::Err => ("err", 0),
                            Ev::Wrong => ("wrong", 0),
                        };
                        format!("{{\"e\":\"{e}\",\"n\":{n}}}")
                    })
                    .collect();
                (format!("{{\"ev\":[{}]}}", ev.join(",")), case)
            })
            .collect();
        out.sort();
        out.dedup_by(|a, b| a.0 == b.0);
        save("faults", out);
        rep.finish();
    }

    let rounds = if thorough { 40 } else { 2 };
    parallel(&rep, threads, vectors.len().div_ceil(50), |t, j| {
        let mut r = Rng::new(seed.wrapping_mul(97) ^ (j as u64) << 10);
        for v in &vectors[j * 50..vectors.len().min(j * 50 + 50)] {
            for round in 0..rounds {
                let (calls, owed) = v.instance(&mut r);
                let indent = if round % 2 == (prop == "C10") as usize { None } else { *r.pick(&INDENTS) };
                let how = r.below(4);
                rep.case(t, || show(&calls));
                let bad = match write(&calls, indent, how) {
                    Ok(text) => {
                        rep.sample(|| text.clone());
                        diff(&prop, args_table(&args), &calls, &owed, indent, &text).map(|m| format!("{m} in {}", short(&text)))
                    }
                    Err(m) => Some(m),
                };
                if let Some(m) = bad {
                    rep.violation(&m, &format!("indent {indent:?}, way {how}: {}", show(&calls)));
                }
            }
            rep.distinct(hash(&format!("{:?}", v.calls)));
        }
    });
    // every character, alone and among others
    if prop == "C09" {
        parallel(&rep, threads, 0x110000usize.div_ceil(0x1000), |t, j| {
            let mut r = Rng::new(seed ^ j as u64);
            for c in (j * 0x1000)..((j + 1) * 0x1000).min(0x110000) {
                let Some(c) = char::from_u32(c as u32) else { continue };
                if !thorough && c as u32 > 0x3000 && !r.chance(3) {
                    continue;
                }
                let forms: [Vec<Call>; 3] = [
                    vec![Call { a: "str", v: V::Str(c.to_string()), flavor: r.below(3) as u8 }],
                    vec![
                        Call { a: "openstr", v: V::None, flavor: 0 },
                        Call { a: "append", v: V::Str(format!("a{c}")), flavor: r.below(2) as u8 },
                        Call { a: "append", v: V::Str(format!("{c}1")), flavor: r.below(2) as u8 },
                        Call { a: "closestr", v: V::None, flavor: 0 },
                    ],
                    vec![
                        Call { a: "obj", v: V::None, flavor: r.below(3) as u8 },
                        Call { a: "entry", v: V::Str(format!("{c}b")), flavor: 0 },
                        Call { a: "null", v: V::None, flavor: 0 },
                        Call { a: "close", v: V::None, flavor: 0 },
                    ],
                ];
                for calls in forms {
                    rep.case(t, || show(&calls));
                    rep.count("characters", 1);
                    let want: String = calls.iter().filter(|c| matches!(c.v, V::Str(_))).map(|c| c.v.canon()).collect();
                    let key = calls[0].a == "obj";
                    let mut owed = vec![Tok { s: if key { "key" } else { "str" }, v: want }];
                    if key {
                        owed.insert(0, Tok { s: "{", v: String::new() });
                        owed.push(Tok { s: "null", v: String::new() });
                        owed.push(Tok { s: "}", v: String::new() });
                    }
                    let bad = match write(&calls, None, 0) {
                        Ok(text) => diff(&prop, args_table(&args), &calls, &[Line { d: 0, t: owed }], None, &text),
                        Err(m) => Some(m),
                    };
                    if let Some(m) = bad {
                        rep.violation(&m, &show(&calls));
                    }
                }
            }
        });
    }
    // recorded sessions
    let out = Mutex::new(Vec::new());
    parallel(&rep, threads, n.div_ceil(10), |t, j| {
        let mut r = Rng::new(seed.wrapping_mul(1_234_567) ^ (j as u64) << 16);
        for _ in 0..10 {
            let size = match r.below(10) {
                0..=4 => r.below(8),
                5..=8 => r.range(8, 25),
                _ => r.range(25, 80),
            };
            let calls = if j % 40 == 7 && size < 8 { deep_calls(&mut r) } else { random_calls(&mut r, size) };
            let indent = if prop == "C09" { *r.pick(&INDENTS) } else { *r.pick(&[None, Some("  "), Some("\t"), Some("    "), Some(" \t")]) };
            let how = r.below(4);
            rep.case(t, || show(&calls));
            rep.distinct(hash(&show(&calls)));
            let case = format!("indent {indent:?}, way {how}: {}", show(&calls));
            let text = match write(&calls, indent, how) {
                Ok(t) => t,
                Err(m) => {
                    rep.violation(&m, &case);
                    continue;
                }
            };
            let table = args_table(&args);
            let got = match (lines(table, &text, indent, &calls), prop.as_str()) {
                (Ok(l), _) => l,
                (Err(_), "C10") if harness::machine::run(table, &text, false).error.is_some() => continue,
                (Err(_), "C09") if harness::machine::run(table, &text, false).error.is_none() => {
                    lines(table, &text.replace(['\n', '\r'], " "), None, &calls).unwrap()
                }
                (Err(m), _) => {
                    rep.violation(&m, &format!("{case}: {}", short(&text)));
                    continue;
                }
            };
            // what is not a matter of layout is left to C09, and the other way round
            let ind = prop == "C10" && indent.is_some();
            let got = if prop == "C09" { vec![Line { d: 0, t: flat(&got) }] } else { got };
            let hide = |s: &str, v: &str| if prop == "C10" || matches!(s, "{" | "}" | "[" | "]" | ",") { "[]".to_string() } else { codes(v) };
            let cs: Vec<String> = calls
                .iter()
                .map(|c| {
                    let v = match &c.v {
                        V::None => "[]".to_string(),
                        V::Bool(b) if prop != "C10" => format!("[{}]", *b as u8),
                        v => hide("", &v.canon()),
                    };
                    format!("{{\"a\":\"{}\",\"v\":{v}}}", c.a)
                })
                .collect();
            let ls: Vec<String> = got
                .iter()
                .map(|l| {
                    let ts: Vec<String> = l
                        .t
                        .iter()
                        .map(|t| {
                            let v = if t.s == "bool" && prop != "C10" { format!("[{}]", t.v) } else { hide(t.s, &t.v) };
                            format!("{{\"s\":\"{}\",\"v\":{v}}}", t.s)
                        })
                        .collect();
                    format!("{{\"d\":{},\"t\":[{}]}}", l.d, ts.join(","))
                })
                .collect();
            rep.count("recorded_sessions", 1);
            let line = format!("{{\"ind\":{ind},\"calls\":[{}],\"lines\":[{}]}}", cs.join(","), ls.join(","));
            out.lock().unwrap().push((line, format!("{case}: {}", short(&text))));
        }
    });
    let mut out = out.into_inner().unwrap();
    out.sort();
    out.dedup_by(|a, b| a.0 == b.0);
    save("writes", out);
    rep.finish();
}

fn args_table(args: &Args) -> &'static Table {
    static T: std::sync::OnceLock<Table> = std::sync::OnceLock::new();
    T.get_or_init(|| Table::load(&args.lines("table")[0]))
}
