//! C17: programs over the helper wrappers, against a format that notes what it is asked.
use harness::json::{quote, J};
use harness::mock::*;
use harness::report::{catch, parallel, save, Args, Report};
use harness::rng::Rng;
use serdere::deserialize::{Deserialize, DeserializeStruct};
use serdere::{FixedNameMap, List, NameMap, Struct, Tuple, Value};
use serdere_json::{Collection, Entry, Object, ValueDeserializerExt, ValueExt, ValueSerialierExt};
use std::rc::Rc;
use std::sync::Mutex;

const NAMES: &NameMap<usize> = FixedNameMap::new([("a", 0), ("b", 1)]).unfix();

#[derive(Clone, Debug)]
struct Op {
    o: String,
    a: i64,
    /// what the format says, where it is asked
    more: bool,
}
#[derive(Clone, Debug)]
struct Step {
    op: Op,
    out: String,
    rem: i64,
    raw: Vec<&'static str>,
    /// the format failed
    failed: bool,
}

/// Where the operations come from.
enum Source {
    Script(Vec<Op>),
    Random { len: usize, legal: usize },
}

struct Prog {
    read: bool,
    json: bool,
    nulls: bool,
    shared: Rc<Shared>,
    source: Source,
    rng: Rng,
    done: Vec<Step>,
    /// the operation under way
    now: Option<Op>,
    depth: usize,
}

/// What a random program may know about its handle.
#[derive(Clone, Copy, Default)]
struct Know {
    rem: i64,
    /// the handle can't be used legally any more
    over: bool,
    key: bool,
}

impl Prog {
    fn next(&mut self, kind: &str, k: Know) -> R<Op> {
        let n = self.done.len();
        let op = match &self.source {
            Source::Script(v) => v.get(n).cloned(),
            &Source::Random { len, legal } => {
                if n >= len {
                    // wind up
                    if n >= len + 60 {
                        return Err(Stop::End);
                    }
                }
                Some(self.random(kind, k, legal, n >= len))
            }
        };
        let Some(op) = op else { return Err(Stop::End) };
        self.shared.calls.borrow_mut().clear();
        self.shared.answer.set(match op.o.as_str() {
            "list" => op.a,
            "obj" => OBJECT,
            "next" => op.more as i64,
            _ => op.a,
        });
        self.now = Some(op.clone());
        Ok(op)
    }
    fn did(&mut self, out: &str, rem: i64) {
        let op = self.now.take().expect("an operation is under way");
        let raw = self.shared.calls.borrow_mut().split_off(0);
        let failed = self.shared.failed.take();
        self.done.push(Step { op, out: out.into(), rem, raw, failed });
    }
    fn random(&mut self, kind: &str, k: Know, legal: usize, wind: bool) -> Op {
        let wild = !self.rng.chance(legal);
        let deep = self.depth > 6 || wind;
        let r = &mut self.rng;
        let o: &str = if k.over && !wild {
            "drop"
        } else {
            match kind {
                "value" => {
                    let mut v = vec!["put", "put", "put"];
                    if !deep {
                        v.extend(["struct", "tuple", "list", "list", "list"]);
                        if self.json {
                            v.extend(["obj", "obj", "obj"]);
                        }
                        if self.read {
                            v.push("valid");
                        }
                    }
                    if self.read {
                        v.push("null");
                    }
                    v.push("peek");
                    if wild {
                        v.extend(["drop", "drop", "drop"]);
                    }
                    *r.pick(&v)
                }
                "struct" => *r.pick(if wild { &["field", "close", "ready", "drop"] } else if wind { &["close"] } else { &["field", "field", "field", "close", "ready"] }),
                "inline" => *r.pick(if wild { &["field", "ready", "drop"] } else if wind { &["drop"] } else { &["field", "field", "drop", "ready"] }),
                "tuple" => *r.pick(if wild { &["elem", "close", "drop"] } else if wind { &["close"] } else { &["elem", "elem", "elem", "close"] }),
                "list" => {
                    let mut v = vec![];
                    if wild {
                        v.extend(["push", "close", "rem", "drop"]);
                        if self.read {
                            v.push("next");
                        }
                    } else {
                        if !wind && !(k.rem == 0) {
                            v.extend(["push", "push", "rem"]);
                            if self.read {
                                v.extend(["next", "next"]);
                            }
                        }
                        if k.rem < 1 {
                            v.push("close");
                            if self.read {
                                v.push("next");
                            }
                        }
                        if v.is_empty() {
                            v.push(if self.read { "next" } else { "push" });
                        }
                    }
                    *r.pick(&v)
                }
                "obj" => {
                    let mut v = vec!["entry", "entry", "close"];
                    if self.read {
                        v.extend(["try", "try", "nextentry", "nextentry", "nextentry", "inline"]);
                    }
                    if wild {
                        v.push("drop");
                    }
                    if wind && !wild {
                        v = vec!["close"];
                    }
                    *r.pick(&v)
                }
                "entry" => {
                    if wild {
                        *r.pick(&["key", "value", "drop"])
                    } else if k.key {
                        "value"
                    } else {
                        *r.pick(&["key", "value"])
                    }
                }
                _ => "drop",
            }
        };
        let a = match o {
            "list" => {
                if !self.read && !self.json || r.chance(60) {
                    r.below(5) as i64
                } else {
                    -1
                }
            }
            "null" => (self.nulls && r.chance(30)) as i64,
            "next" if k.rem < 0 => r.chance(75) as i64,
            "try" | "nextentry" => r.chance(75) as i64,
            "valid" => r.chance(25) as i64,
            _ => 0,
        };
        let more = if k.rem >= 0 { k.rem > 0 } else { a == 1 };
        Op { o: o.into(), a, more }
    }
}

type V<'a> = Value<'a, Mock>;

/// A struct whose content is a program.
struct Content;
impl Deserialize<Mock, Prog> for Content {
    const NULLABLE: bool = false;
    fn deserialize(value: V, p: &mut Prog) -> R<Self> {
        serdere::deserialize::deserialize_struct(value, p, None)
    }
}
impl DeserializeStruct<Mock, Prog> for Content {
    fn deserialize_content(st: &mut Struct<Mock>, p: &mut Prog) -> R<Self> {
        run_inline(st, p)?;
        Ok(Content)
    }
}

fn put(v: V, p: &mut Prog) -> R<()> {
    let json = p.json;
    let r = &mut p.rng;
    if p.read {
        match r.below(20) {
            0 => v.get_bool().map(drop),
            1 => v.get_i8().map(drop),
            2 => v.get_i16().map(drop),
            3 => v.get_i32().map(drop),
            4 => v.get_i64().map(drop),
            5 => v.get_u8().map(drop),
            6 => v.get_u16().map(drop),
            7 => v.get_u32().map(drop),
            8 => v.get_u64().map(drop),
            9 => v.get_f32().map(drop),
            10 => v.get_f64().map(drop),
            11 => v.get_char().map(drop),
            12 => v.get_str().map(drop),
            13 => v.get_tag(1, NAMES).map(drop),
            14 => v.get::<u16>().map(drop),
            15 => v.get_using::<String, ()>(&mut ()).map(drop),
            16 => v.get::<std::num::NonZeroI64>().map(drop),
            17 if json => v.skip(),
            18 if json => v.into_null(),
            _ => {
                let (d, done) = v.into_raw();
                serdere::Deserializer::get_u8(d)?;
                *done = true;
                Ok(())
            }
        }
    } else {
        match r.below(20) {
            0 => v.put_bool(true),
            1 => v.put_i8(1),
            2 => v.put_i16(1),
            3 => v.put_i32(1),
            4 => v.put_i64(1),
            5 => v.put_u8(1),
            6 => v.put_u16(1),
            7 => v.put_u32(1),
            8 => v.put_u64(1),
            9 => v.put_f32(1.5),
            10 => v.put_f64(2.5),
            11 => v.put_char('x'),
            12 => v.put_str("text"),
            13 => v.put_tag(3, 1, Some("b")),
            14 => v.put(&7u16),
            15 => v.put_using(&String::from("x"), &mut ()),
            16 => v.put(&std::num::NonZeroU8::MIN),
            17 if json => v.into_null(),
            18 => v.put_tag(3, 1, None),
            _ => {
                let (s, done) = v.into_raw();
                serdere::Serializer::put_u8(s, 1)?;
                *done = true;
                Ok(())
            }
        }
    }
}

fn run_value(mut v: V, p: &mut Prog) -> R<()> {
    let mut k = Know { rem: -1, ..Default::default() };
    loop {
        let op = p.next("value", k)?;
        match op.o.as_str() {
            "put" => {
                put(v, p)?;
                p.did("ok", -1);
                return Ok(());
            }
            "struct" => {
                let st = v.into_struct(if p.rng.chance(50) { Some("T") } else { None })?;
                p.did("ok", -1);
                return run_struct(st, p);
            }
            "tuple" => {
                let t = v.into_tuple(if p.rng.chance(50) { Some("T") } else { None })?;
                p.did("ok", -1);
                return run_tuple(t, p);
            }
            "list" => {
                let l = if p.read {
                    if p.json && p.rng.chance(40) {
                        match v.into_collection()? {
                            Collection::List(l) => l,
                            Collection::Object(_) => {
                                p.did("object", -1);
                                return Err(Stop::End);
                            }
                        }
                    } else {
                        v.into_list()?
                    }
                } else if op.a < 0 {
                    v.into_list_streaming()?
                } else {
                    v.into_list_sized(op.a as usize)?
                };
                p.did("ok", -1);
                return run_list(l, p, op.a);
            }
            "obj" => {
                let o = if p.read && p.rng.chance(40) {
                    match v.into_collection()? {
                        Collection::Object(o) => o,
                        Collection::List(_) => {
                            p.did("list", -1);
                            return Err(Stop::End);
                        }
                    }
                } else {
                    v.into_object()?
                };
                p.did("ok", -1);
                return run_object(o, p);
            }
            "null" => {
                let res = v.check_null()?;
                p.did(if res { "ok" } else { "none" }, -1);
                k.over = res;
            }
            "peek" => {
                if p.json && p.read && p.rng.chance(60) {
                    v.ty();
                } else {
                    let _ = v.as_raw();
                }
                p.did("ok", -1);
            }
            "valid" => {
                return v.validate_with(|v| {
                    p.did("ok", -1);
                    run_value(v, p)?;
                    p.next("scope", Know::default())?;
                    Ok(if op.a == 1 { Err(std::fmt::Error) } else { Ok(()) })
                })
                .map(|()| p.did("ok", -1));
            }
            "drop" => {
                drop(v);
                p.did("ok", -1);
                return Ok(());
            }
            o => panic!("harness: {o} on a value"),
        }
    }
}

/// Runs the program of a child, and tells whether the child was consumed.
fn child(v: V, p: &mut Prog, k: &mut Know) -> R<()> {
    let n = p.done.len();
    p.depth += 1;
    run_value(v, p)?;
    p.depth -= 1;
    k.over = consumed(&p.done[n..]).is_none();
    Ok(())
}
/// A random program's guess whether the steps, which used up a handle, left something behind.
fn consumed(steps: &[Step]) -> Option<()> {
    let last = steps.last()?;
    match last.op.o.as_str() {
        "drop" => {
            // dropping is harmless for what was used up before
            let prev = steps.len().checked_sub(2).map(|i| &steps[i])?;
            let used = prev.op.o == "put"
                || prev.op.o == "close"
                || prev.op.o == "drop"
                || (prev.op.o == "null" && prev.out == "ok")
                || (matches!(prev.op.o.as_str(), "next" | "nextentry") && prev.out == "none");
            used.then_some(())
        }
        _ => Some(()),
    }
}

fn run_struct(mut st: Struct<Mock>, p: &mut Prog) -> R<()> {
    let mut k = Know { rem: -1, ..Default::default() };
    loop {
        let op = p.next("struct", k)?;
        match op.o.as_str() {
            "field" => {
                let v = st.field("f")?;
                p.did("ok", -1);
                child(v, p, &mut k)?;
            }
            "ready" => {
                st.assert_ready();
                p.did("ok", -1);
            }
            "close" => {
                st.close()?;
                p.did("ok", -1);
                return Ok(());
            }
            "drop" => {
                drop(st);
                p.did("ok", -1);
                return Ok(());
            }
            o => panic!("harness: {o} on a struct"),
        }
    }
}

fn run_inline(st: &mut Struct<Mock>, p: &mut Prog) -> R<()> {
    p.did("ok", -1);
    let mut k = Know { rem: -1, ..Default::default() };
    loop {
        let op = p.next("inline", k)?;
        match op.o.as_str() {
            "field" => {
                let v = st.field("f")?;
                p.did("ok", -1);
                child(v, p, &mut k)?;
            }
            "ready" => {
                st.assert_ready();
                p.did("ok", -1);
            }
            "drop" => return Ok(()),
            o => panic!("harness: {o} on an inlined struct"),
        }
    }
}

fn run_tuple(mut t: Tuple<Mock>, p: &mut Prog) -> R<()> {
    let mut k = Know { rem: -1, ..Default::default() };
    loop {
        let op = p.next("tuple", k)?;
        match op.o.as_str() {
            "elem" => {
                let v = t.element()?;
                p.did("ok", -1);
                child(v, p, &mut k)?;
            }
            "close" => {
                t.close()?;
                p.did("ok", -1);
                return Ok(());
            }
            "drop" => {
                drop(t);
                p.did("ok", -1);
                return Ok(());
            }
            o => panic!("harness: {o} on a tuple"),
        }
    }
}

fn run_list(l: List<Mock>, p: &mut Prog, len: i64) -> R<()> {
    let mut k = Know { rem: len, ..Default::default() };
    let mut l = l;
    loop {
        let op = p.next("list", k)?;
        match op.o.as_str() {
            "push" => {
                let v = l.push()?;
                p.did("ok", -1);
                if k.rem > 0 {
                    k.rem -= 1;
                }
                child(v, p, &mut k)?;
            }
            "next" if p.json && p.rng.chance(30) => {
                let mut c = Collection::from(l);
                match c.next()? {
                    Some(v) => {
                        p.did("ok", -1);
                        if k.rem > 0 {
                            k.rem -= 1;
                        }
                        child(v, p, &mut k)?;
                    }
                    None => {
                        p.did("none", -1);
                        k.over = true;
                    }
                }
                let Collection::List(back) = c else { panic!("a list became an object") };
                l = back;
            }
            "next" => match l.next()? {
                Some(v) => {
                    p.did("ok", -1);
                    if k.rem > 0 {
                        k.rem -= 1;
                    }
                    child(v, p, &mut k)?;
                }
                None => {
                    p.did("none", -1);
                    k.over = true;
                }
            },
            "rem" => {
                let rem = l.rem_len().map(|n| i64::try_from(n).unwrap_or(i64::MAX)).unwrap_or(-1);
                p.did("ok", rem);
            }
            "close" => {
                l.close()?;
                p.did("ok", -1);
                return Ok(());
            }
            "drop" => {
                drop(l);
                p.did("ok", -1);
                return Ok(());
            }
            o => panic!("harness: {o} on a list"),
        }
    }
}

fn run_entry(mut e: Entry<Mock>, p: &mut Prog, k: &mut Know) -> R<()> {
    let mut ke = Know { rem: -1, ..Default::default() };
    loop {
        let op = p.next("entry", ke)?;
        match op.o.as_str() {
            "key" => {
                e.key()?;
                p.did("ok", -1);
                ke.key = true;
            }
            "value" => {
                let v = e.value()?;
                p.did("ok", -1);
                return child(v, p, k);
            }
            "drop" => {
                drop(e);
                p.did("ok", -1);
                k.over = true;
                return Ok(());
            }
            o => panic!("harness: {o} on an entry"),
        }
    }
}

fn run_object(o: Object<Mock>, p: &mut Prog) -> R<()> {
    let mut k = Know { rem: -1, ..Default::default() };
    let mut o = o;
    loop {
        let op = p.next("obj", k)?;
        match op.o.as_str() {
            "entry" => {
                let v = o.entry("k")?;
                p.did("ok", -1);
                child(v, p, &mut k)?;
            }
            "try" => {
                if let Some(v) = o.try_entry("k")? {
                    p.did("ok", -1);
                    child(v, p, &mut k)?;
                } else {
                    p.did("none", -1);
                }
            }
            "nextentry" => {
                // through a collection, an entry becomes its value at once
                let through = match &p.source {
                    Source::Script(v) => v.get(p.done.len() + 1).is_some_and(|n| op.a == 0 || n.o == "value"),
                    Source::Random { .. } => true,
                };
                if through && p.rng.chance(30) {
                    let mut c = Collection::from(o);
                    let res = c.next();
                    if matches!(res, Ok(Some(_))) || p.shared.calls.borrow().len() == 2 {
                        // the entry, and its value
                        let mut raw = p.shared.calls.borrow_mut().split_off(0);
                        let rest = if raw.is_empty() { vec![] } else { raw.split_off(1) };
                        let failed = p.shared.failed.take();
                        *p.shared.calls.borrow_mut() = raw;
                        p.did("ok", -1);
                        *p.shared.calls.borrow_mut() = rest;
                        p.shared.failed.set(failed);
                        p.now = Some(Op { o: "value".into(), a: 0, more: false });
                    }
                    match res? {
                        Some(v) => {
                            p.did("ok", -1);
                            child(v, p, &mut k)?;
                        }
                        None => {
                            p.did("none", -1);
                            k.over = true;
                        }
                    }
                    let Collection::Object(back) = c else { panic!("an object became a list") };
                    o = back;
                } else if let Some(e) = o.next_entry()? {
                    p.did("ok", -1);
                    run_entry(e, p, &mut k)?;
                } else {
                    p.did("none", -1);
                    k.over = true;
                }
            }
            "inline" => {
                o.inline_using::<Content, Prog>(p)?;
                p.did("ok", -1);
            }
            "close" => {
                o.close()?;
                p.did("ok", -1);
                return Ok(());
            }
            "drop" => {
                drop(o);
                p.did("ok", -1);
                return Ok(());
            }
            o => panic!("harness: {o} on an object"),
        }
    }
}

/// Runs a whole program; the steps it made, and what else went wrong.
fn run(start: &str, mut p: Prog) -> (Vec<Step>, Option<String>) {
    let mut mock = Mock { nulls: p.nulls, shared: p.shared.clone() };
    let res = catch(|| match start {
        "stale" => {
            let mut done = true;
            run_value(Value::new(&mut mock, &mut done), &mut p)?;
            Err(Stop::End)
        }
        "value" => Value::with(&mut mock, |v| {
            run_value(v, &mut p)?;
            p.next("scope", Know::default())?;
            Ok(())
        }),
        "struct" => Struct::with(&mut mock, |v| {
            run_struct(v, &mut p)?;
            p.next("scope", Know::default())?;
            Ok(())
        }),
        _ => Tuple::with(&mut mock, |v| {
            run_tuple(v, &mut p)?;
            p.next("scope", Know::default())?;
            Ok(())
        }),
    });
    match res {
        Ok(Ok(())) => p.did("ok", -1),
        Ok(Err(Stop::End)) => {}
        // a closure refused its value
        Ok(Err(Stop::Custom(e))) if e == std::fmt::Error.to_string() && p.now.is_some() => p.did("refused", -1),
        // the format failed
        Ok(Err(Stop::Custom(e))) if e == FAILS && p.now.is_some() => p.did("failed", -1),
        Ok(Err(e)) => return (p.done, Some(format!("failed: {e}"))),
        Err(panic) => {
            if panic.contains("harness") {
                return (p.done, Some(panic));
            }
            if p.now.is_some() {
                p.did("panic", -1);
            } else {
                return (p.done, Some(format!("panicked between operations: {panic}")));
            }
        }
    }
    (p.done, None)
}

fn show(read: bool, json: bool, nulls: bool, start: &str, steps: &[Step]) -> String {
    let mut s = format!(
        "{}{}{} starting with a {start}:",
        if read { "reading" } else { "writing" },
        if json { ", json" } else { "" },
        if nulls { ", nulls" } else { "" }
    );
    for t in steps {
        s.push_str(&format!(" {}({})->{}", t.op.o, t.op.a, t.out));
        if t.rem >= 0 {
            s.push_str(&format!(" rem {}", t.rem));
        }
        if !t.raw.is_empty() {
            s.push_str(&format!(" [{}]", t.raw.join(" ")));
        }
    }
    s
}

fn main() {
    let args = Args::parse();
    let threads = 8;
    let report = Report::new(&args, threads);
    let mut scripts = Vec::new();
    for f in ["rj", "rp", "wj", "wp"] {
        scripts.extend(args.lines(f));
    }
    let reps = if args.thorough() { 3 } else { 1 };
    let seed = args.seed();
    let chunk = 500;
    parallel(&report, threads, scripts.len().div_ceil(chunk), |t, j| {
        for (i, s) in scripts.iter().enumerate().skip(j * chunk).take(chunk) {
            let (read, json, nulls) = (s.get("read").bool(), s.get("json").bool(), s.get("nulls").bool());
            let ops = s.get("ops").arr();
            let start = ops[0].get("out").str();
            let want: Vec<Step> = ops[1..]
                .iter()
                .map(|o| {
                    let raw: Vec<&'static str> =
                        o.get("raw").arr().iter().map(|r| &*Box::leak(r.str().to_string().into_boxed_str())).collect();
                    Step {
                        op: Op { o: o.get("o").str().into(), a: o.get("a").int(), more: raw == ["next_item"] },
                        out: o.get("out").str().into(),
                        rem: o.get("rem").int(),
                        raw,
                        failed: false,
                    }
                })
                .collect();
            // every way to consume a value that is gone already
            let reps = if start == "stale" { reps * 200 } else { reps };
            for rep in 0..2 * reps {
                // every other time one of the calls fails, and the program ends with it
                let calls: Vec<usize> = (0..want.len()).filter(|&n| !want[n].raw.is_empty()).collect();
                let mut rng = Rng::new(seed ^ ((i * 1024 + rep) as u64) << 8);
                let mut want = want.clone();
                let shared: Rc<Shared> = Rc::default();
                if rep % 2 == 1 {
                    if calls.is_empty() {
                        continue;
                    }
                    // mostly the last one: the earlier ones are the last ones of others
                    let at = if rng.chance(75) { calls.len() - 1 } else { rng.below(calls.len()) };
                    want.truncate(calls[at] + 1);
                    let last = want.last_mut().unwrap();
                    (last.out, last.rem, last.failed) = ("failed".into(), -1, true);
                    shared.fails.set(at + 1);
                }
                let want = &want;
                report.case(t, || show(read, json, nulls, start, want));
                let p = Prog {
                    read,
                    json,
                    nulls,
                    shared,
                    source: Source::Script(want.iter().map(|w| w.op.clone()).collect()),
                    rng,
                    done: vec![],
                    now: None,
                    depth: 0,
                };
                let (got, err) = run(start, p);
                report.distinct(i as u64);
                let bad = err.or_else(|| {
                    for (n, w) in want.iter().enumerate() {
                        let Some(g) = got.get(n) else { return Some(format!("only {n} operations could be made")) };
                        if g.out != w.out || g.rem != w.rem || g.raw != w.raw || g.failed != w.failed {
                            return Some(format!(
                                "operation {} ({}): owed {} {} {:?}, got {} {} {:?}",
                                n + 1, w.op.o, w.out, w.rem, w.raw, g.out, g.rem, g.raw
                            ));
                        }
                    }
                    None
                });
                if let Some(what) = bad {
                    report.violation(&what, &show(read, json, nulls, start, want));
                    return;
                }
            }
            if i % 9973 == 0 {
                report.sample(|| show(read, json, nulls, start, &want));
            }
        }
    });
    report.count("programs_replayed", scripts.len() as u64);
    // random programs, recorded for TLC
    let n: usize = args.get("random").parse::<usize>().unwrap() * if args.thorough() { 20 } else { 1 };
    let out = Mutex::new(Vec::new());
    parallel(&report, threads, n, |t, j| {
        let mut rng = Rng::new(seed.wrapping_mul(7919) ^ ((j as u64) << 20));
        let read = rng.chance(60);
        let json = rng.chance(70);
        let nulls = rng.chance(50);
        let start = *rng.pick(&["value", "value", "value", "value", "struct", "struct", "tuple", "tuple", "stale"]);
        let len = rng.range(5, 60);
        let legal = *rng.pick(&[100, 99, 97, 90]);
        let shared: Rc<Shared> = Rc::default();
        if rng.chance(25) {
            shared.fails.set(rng.range(1, 25));
        }
        let p = Prog {
            read,
            json,
            nulls,
            shared,
            source: Source::Random { len, legal },
            rng: rng.fork(),
            done: vec![],
            now: None,
            depth: 0,
        };
        report.case(t, || format!("random program {j}"));
        let (got, err) = run(start, p);
        let s = show(read, json, nulls, start, &got);
        if let Some(what) = err {
            report.violation(&what, &s);
            return;
        }
        report.distinct(harness::report::hash(&s));
        report.count("operations", got.len() as u64);
        let ops: Vec<String> = got
            .iter()
            .map(|g| {
                format!(
                    "{{\"o\":{},\"a\":{},\"out\":{},\"rem\":{},\"f\":{},\"raw\":[{}]}}",
                    quote(&g.op.o),
                    g.op.a,
                    quote(&g.out),
                    g.rem,
                    g.failed,
                    g.raw.iter().map(|r| quote(r)).collect::<Vec<_>>().join(",")
                )
            })
            .collect();
        out.lock().unwrap().push((
            format!("{{\"nulls\":{nulls},\"start\":\"{start}\",\"ops\":[{}]}}", ops.join(",")),
            s,
        ));
    });
    let mut out = out.into_inner().unwrap();
    out.sort();
    save("programs", out);
    let _: Option<J> = None;
    report.finish();
}
