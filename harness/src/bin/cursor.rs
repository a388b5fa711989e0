//! Conformance of the reader with the Cursor specification.  Drives the reader along every path of
//! the transition graphs that TLC printed for small documents, and records random sessions over
//! larger documents for TLC to validate.
use harness::cursor::*;
use harness::report::{catch, hash, parallel, Args, Report};
use harness::rng::Rng;
use serdere::{Deserializer, LineColumnPosition, List, Struct, TextReader, Tuple, Utf8Reader, Value};
use serdere_json::*;
use std::collections::{HashMap, HashSet};
use std::sync::Mutex;

struct Edge {
    a: &'static str,
    x: String,
    r: Res,
    to: u32,
}

struct Graph {
    doc: Document,
    start: u32,
    states: Vec<Vec<Edge>>,
    ids: HashMap<String, u32>,
}

fn document(s: &str) -> Document {
    tuple(s)
        .arr()
        .iter()
        .map(|n| {
            let n = n.arr();
            DocNode {
                k: n[0].str().to_string(),
                c: ints(&n[1]).iter().map(|x| *x as usize - 1).collect(),
                key: ints(&n[2]),
                v: ints(&n[3]),
            }
        })
        .collect()
}

impl Graph {
    fn id(&mut self, s: &str) -> u32 {
        if let Some(i) = self.ids.get(s) {
            return *i;
        }
        let i = self.states.len() as u32;
        self.ids.insert(s.to_string(), i);
        self.states.push(Vec::new());
        i
    }
}

fn load(path: &str) -> Vec<Graph> {
    let text = std::fs::read_to_string(path).unwrap();
    let mut by: HashMap<&str, Graph> = HashMap::new();
    for l in text.lines().filter(|l| l.starts_with("D|")) {
        let f: Vec<&str> = l.split('|').collect();
        let mut g = Graph { doc: document(f[2]), start: 0, states: Vec::new(), ids: HashMap::new() };
        g.start = g.id(f[3]);
        by.insert(f[1], g);
    }
    for l in text.lines().filter(|l| l.starts_with("T|")) {
        let f: Vec<&str> = l.split('|').collect();
        let g = by.get_mut(f[1]).unwrap();
        let (s, t) = (g.id(f[2]), g.id(f[7]));
        let r = Res::with(f[5], tuple(f[6]).arr().iter().map(|x| x.int()).collect());
        g.states[s as usize].push(Edge { a: leak(f[3]), x: string(&ints(&tuple(f[4]))), r, to: t });
    }
    let mut gs: Vec<Graph> = by.into_values().collect();
    for g in &mut gs {
        g.ids = HashMap::new();
    }
    gs.sort_by_key(|g| format!("{:?}", g.doc));
    gs
}

/// What every key is wrapped in: to the specification these make no difference.
#[derive(Default)]
struct Stretch {
    head: String,
    tail: String,
}

impl Stretch {
    fn new(r: &mut Rng) -> Stretch {
        let mut part = |r: &mut Rng| {
            let chars = ['k', 'e', 'é', '\"', '\\', '日', '😀', '\0', 'z', ' '];
            let n = match r.below(8) {
                0..=2 => *r.pick(&[65535, 65536, 70000, 131072]),
                3 => *r.pick(&[4095, 4096, 32768]),
                _ => *r.pick(&[63, 64, 127, 128, 255, 256, 257, 300, 512, 1023, 1024, 1025]),
            };
            // one letter only, so that lengths in bytes are known; or any
            if r.chance(50) {
                return "k".repeat(n);
            }
            let at = r.below(chars.len());
            let mut s = String::new();
            while s.len() < n {
                s.push(chars[(at + s.len()) % chars.len()]);
            }
            s
        };
        match r.below(5) {
            0 | 1 => Stretch { head: part(r), tail: String::new() },
            2 | 3 => Stretch { head: String::new(), tail: part(r) },
            _ => Stretch { head: part(r), tail: part(r) },
        }
    }
    fn key(&self, k: &str) -> String {
        format!("{}{k}{}", self.head, self.tail)
    }
    fn document(&self, doc: &Document) -> Document {
        let mut doc = doc.clone();
        for i in 0..doc.len() {
            for m in doc[i].c.clone() {
                if doc[i].k == "obj" {
                    doc[m].key = self.key(&string(&doc[m].key)).chars().map(|c| c as u32).collect();
                }
            }
        }
        doc
    }
    /// Takes the parts off what was answered; head tells whether the head is still to be expected.
    fn strip(&self, r: &mut Res, head: bool) {
        let (h, t) = (codes(&self.head), codes(&self.tail));
        // (errors have a position in front)
        let at = usize::from(r.k != "str");
        if head && r.v[at..].starts_with(&h) {
            r.v.drain(at..at + h.len());
        } else if head && !h.is_empty() {
            r.v.insert(0, -1);
        }
        if r.v.ends_with(&t) {
            r.v.truncate(r.v.len() - t.len());
        } else {
            r.v.push(-1);
        }
    }
}

/// A call within a stretched key.  fresh: nothing of the key has been read.
fn perform_key<R: TextReader>(
    d: &mut Option<TextDeserializer<R>>,
    a: &'static str,
    pos: &dyn Fn(&R::Position) -> i64,
    stretch: &Stretch,
    fresh: &mut bool,
) -> Res {
    let odd = Res::new("a part of the key is not there");
    if a == "next" && *fresh {
        for c in stretch.head.chars() {
            if perform(d, a, "", pos) != Res::with("char", vec![c as i64]) {
                return odd;
            }
        }
        *fresh = false;
    }
    let mut r = perform(d, a, "", pos);
    match a {
        "flush" if r.k == "str" => stretch.strip(&mut r, *fresh),
        "next" if r.k == "char" => {
            // which may be a letter of the key, or the first one of the tail
            *fresh = false;
        }
        _ => {}
    }
    r
}

/// Drives the reader along one path.  `choose` picks among the given number of edges.
fn drive<R: TextReader>(
    g: &Graph,
    reader: R,
    comments: bool,
    pos: &dyn Fn(&R::Position) -> i64,
    choose: &mut dyn FnMut(usize) -> usize,
    path: &mut Vec<(u32, u32)>,
    stretch: Option<&Stretch>,
    deep: Option<(&Deep, &mut Rng)>,
) -> Option<String> {
    let (deep, mut rng) = deep.unzip();
    // the containers that are open, and whether there are others around them
    let mut frames: Vec<(bool, bool)> = Vec::new();
    let mut d = match TextDeserializer::new(harness::visit::config(comments), reader) {
        Ok(d) => Some(d),
        Err(e) => return Some(format!("new: {}", e.message())),
    };
    let mut s = g.start;
    let mut loops = 0;
    let mut ok = Vec::new();
    // within a key, and whether nothing of it has been read
    let mut key = None;
    loop {
        ok.clear();
        for (i, e) in g.states[s as usize].iter().enumerate() {
            // (closing a key that has not been read is left open)
            if (e.to != s || loops < 2) && !(stretch.is_some() && key.is_some() && e.a == "closestr") {
                ok.push(i as u32);
            }
        }
        if ok.is_empty() {
            return None;
        }
        let i = ok[choose(ok.len())];
        let e = &g.states[s as usize][i as usize];
        path.push((s, i));
        if e.to == s {
            loops += 1;
        }
        if let (Some(deep), Some(rng), "obj" | "list" | "struct" | "tuple") = (deep, rng.as_mut(), e.a) {
            let obj = perform(&mut d, "ty", "", pos).k == "obj";
            let around = !frames.is_empty() && e.r.k == "ok";
            if around {
                if let Err(e) = descend(&mut d, obj, deep, rng) {
                    return Some(format!("on the way down: {}", e.message()));
                }
            }
            frames.push((obj, around));
        }
        let r = match (stretch, &mut key) {
            (None, _) => perform(&mut d, e.a, &e.x, pos),
            (Some(st), Some(fresh)) => {
                let mut r = perform_key(&mut d, e.a, pos, st, fresh);
                if e.a == "next" && e.r.k == "no" {
                    for c in st.tail.chars() {
                        if r == Res::with("char", vec![c as i64]) {
                            r = perform(&mut d, e.a, "", pos);
                        }
                    }
                }
                if matches!(e.a, "flush" | "skipstr") || r.k == "no" {
                    key = None;
                }
                r
            }
            (Some(st), None) => {
                let x = if matches!(e.a, "try" | "push" | "field") { st.key(&e.x) } else { e.x.clone() };
                let mut r = perform(&mut d, e.a, &x, pos);
                if matches!(r.k.as_str(), "missing" | "extra") {
                    st.strip(&mut r, true);
                }
                if e.a == "entry" && r.k == "yes" {
                    key = Some(true);
                }
                r
            }
        };
        if !r.fits(&e.r) {
            let show = format!("{r:?}");
            return Some(format!("{} {:?}: expected {:?}, got {}", e.a, e.x, e.r, show.chars().take(300).collect::<String>()));
        }
        let closed = match e.a {
            "closeobj" | "closelist" | "closestruct" | "closetuple" | "skipobj" => r.k == "ok",
            "entry" | "item" => r.k == "no",
            _ => false,
        };
        if let (Some(deep), Some(rng), true) = (deep, rng.as_mut(), closed) {
            let (obj, around) = frames.pop().unwrap();
            if around {
                if let Err(e) = ascend(&mut d, obj, deep, rng) {
                    return Some(format!("on the way up: {}", e.message()));
                }
            }
        }
        s = e.to;
    }
}

/// The graphs again, with long keys, along some paths.
fn stretched(rep: &Report, t: usize, g: &Graph, seed: u64, paths: usize) {
    let mut rng = Rng::new(seed ^ 0x5712e7c4 ^ hash(&format!("{:?}", g.doc)));
    if !g.doc.iter().any(|n| n.k == "obj" && !n.c.is_empty()) {
        return;
    }
    for n in 0..paths {
        let stretch = Stretch::new(&mut rng);
        let doc = stretch.document(&g.doc);
        let style = Style { space: 20, comments: rng.chance(30) };
        let (text, at) = render(&doc, style, &mut rng);
        let what = || format!("{:?} with keys stretched by {} and {} bytes", render(&g.doc, Style { space: 0, comments: false }, &mut Rng::new(1)).0, stretch.head.len(), stretch.tail.len());
        let mut path = Vec::new();
        rep.case(t, || what());
        let bytes = n % 2 == 1;
        let mut pick = rng.fork();
        let result = catch(|| {
            let mut choose = |n: usize| pick.below(n);
            if bytes {
                let lines: Vec<(usize, usize)> = at.iter().map(|o| harness::machine::position(&text, *o)).collect();
                let pos = |p: &LineColumnPosition| {
                    lines.iter().position(|a| *a == (p.line, p.column)).map(|i| i as i64 + 1).unwrap_or(0)
                };
                let r = Utf8Reader::new(harness::visit::Chunks::new(text.as_bytes(), Rng::new(n as u64))).unwrap();
                drive(g, r, style.comments, &pos, &mut choose, &mut path, Some(&stretch), None)
            } else {
                let node = |o: usize| at.iter().position(|a| *a == o).map(|i| i as i64 + 1).unwrap_or(0);
                let pos = |p: &serdere::StrPosition| harness::visit::offset(&text, p).map(node).unwrap_or(0);
                drive(g, text.as_str(), style.comments, &pos, &mut choose, &mut path, Some(&stretch), None)
            }
        });
        if let Some(m) = result.unwrap_or_else(|m| Some(format!("panicked: {m}"))) {
            rep.violation(&m, &format!("{}: {}", what(), path_text(g, &path)));
            return;
        }
        rep.count("paths_with_long_keys", 1);
    }
}

/// The graphs again, with other containers around the containers, along some paths.
fn deepened(rep: &Report, t: usize, g: &Graph, seed: u64, paths: usize) {
    let mut rng = Rng::new(seed ^ 0xdee9 ^ hash(&format!("{:?}", g.doc)));
    if !g.doc.iter().skip(1).any(|n| matches!(n.k.as_str(), "obj" | "arr")) {
        return;
    }
    for n in 0..paths {
        let levels = match rng.below(30) {
            0 => *rng.pick(&[65534, 65535, 65536]),
            1..=6 => *rng.pick(&[254, 255, 256, 257, 300, 511, 512, 1024]),
            7..=14 => *rng.pick(&[14, 15, 16, 30, 31, 32, 62, 63, 64, 65, 100, 126, 127, 128, 129]),
            _ => rng.range(1, 8),
        };
        let deep = Deep { levels, after: rng.chance(50) };
        let style = Style { space: 20, comments: rng.chance(30) };
        let (text, at, inner) = render_deep(&g.doc, style, &deep, &mut rng);
        let what = || {
            let plain = render(&g.doc, Style { space: 0, comments: false }, &mut Rng::new(1)).0;
            format!("{plain:?} with {levels} containers around each container (a number {} the inner one)", if deep.after { "after" } else { "before" })
        };
        let mut path = Vec::new();
        rep.case(t, || what());
        let mut pick = rng.fork();
        let mut way = rng.fork();
        let result = catch(|| {
            let mut choose = |n: usize| pick.below(n);
            let extra = Some((&deep, &mut way));
            let nodes: HashMap<usize, i64> =
                inner.iter().chain(&at).enumerate().map(|(i, o)| (*o, (i % at.len()) as i64 + 1)).collect();
            if n % 2 == 1 {
                let all = harness::machine::positions(&text);
                let lines: HashMap<(usize, usize), i64> = nodes.iter().map(|(o, i)| (all[*o], *i)).collect();
                let pos = |p: &LineColumnPosition| lines.get(&(p.line, p.column)).copied().unwrap_or(0);
                let r = Utf8Reader::new(harness::visit::Chunks::new(text.as_bytes(), Rng::new(n as u64))).unwrap();
                drive(g, r, style.comments, &pos, &mut choose, &mut path, None, extra)
            } else {
                let pos = |p: &serdere::StrPosition| {
                    harness::visit::offset(&text, p).and_then(|o| nodes.get(&o).copied()).unwrap_or(0)
                };
                drive(g, text.as_str(), style.comments, &pos, &mut choose, &mut path, None, extra)
            }
        });
        if let Some(m) = result.unwrap_or_else(|m| Some(format!("panicked: {m}"))) {
            rep.violation(&m, &format!("{}: {}", what(), path_text(g, &path)));
            return;
        }
        rep.count("paths_in_depth", 1);
    }
}

fn path_text(g: &Graph, path: &[(u32, u32)]) -> String {
    path.iter()
        .map(|(s, i)| {
            let e = &g.states[*s as usize][*i as usize];
            if e.x.is_empty() {
                e.a.to_string()
            } else {
                format!("{}({})", e.a, e.x)
            }
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn explore(rep: &Report, t: usize, g: &Graph, seed: u64, cap: usize, variants: usize) {
    let mut rng = Rng::new(seed ^ hash(&format!("{:?}", g.doc)));
    for variant in 0..variants {
        let style = match variant {
            0 => Style { space: 20, comments: false },
            1 => Style { space: 0, comments: false },
            _ => Style { space: 60, comments: true },
        };
        let (text, at) = render(&g.doc, style, &mut rng);
        let node = |o: usize| at.iter().position(|a| *a == o).map(|i| i as i64 + 1).unwrap_or(0);
        let bytes = variant == 3;
        let mut script: Vec<(usize, usize)> = Vec::new();
        let mut runs = 0;
        let mut random = false;
        loop {
            let mut step = 0;
            let mut path = Vec::new();
            rep.case(t, || format!("{text:?} (path {runs})"));
            let mut pick = rng.fork();
            let result = catch(|| {
                let mut choose = |n: usize| {
                    if random {
                        return pick.below(n);
                    }
                    if step == script.len() {
                        script.push((0, n));
                    }
                    step += 1;
                    script[step - 1].0
                };
                if bytes {
                    let lines: Vec<(usize, usize)> = at.iter().map(|o| harness::machine::position(&text, *o)).collect();
                    let pos = |p: &LineColumnPosition| {
                        lines.iter().position(|a| *a == (p.line, p.column)).map(|i| i as i64 + 1).unwrap_or(0)
                    };
                    let r = Utf8Reader::new(harness::visit::Chunks::new(text.as_bytes(), Rng::new(runs as u64))).unwrap();
                    drive(g, r, style.comments, &pos, &mut choose, &mut path, None, None)
                } else {
                    let pos = |p: &serdere::StrPosition| harness::visit::offset(&text, p).map(node).unwrap_or(0);
                    drive(g, text.as_str(), style.comments, &pos, &mut choose, &mut path, None, None)
                }
            });
            runs += 1;
            match result {
                Ok(None) => {}
                Ok(Some(m)) => {
                    rep.violation(&m, &format!("{text:?}: {}", path_text(g, &path)));
                    return;
                }
                Err(m) => {
                    rep.violation(&format!("panicked: {m}"), &format!("{text:?}: {}", path_text(g, &path)));
                    return;
                }
            }
            if rep.stopped() {
                return;
            }
            if random {
                if runs >= cap + cap / 2 {
                    break;
                }
                continue;
            }
            // the next path in order
            while let Some((i, n)) = script.last_mut() {
                *i += 1;
                if *i < *n {
                    break;
                }
                script.pop();
            }
            if script.is_empty() {
                rep.count("documents_with_every_path", 1);
                break;
            }
            if runs >= cap {
                random = true;
                rep.count("documents_with_paths_sampled", 1);
            }
        }
        rep.count("paths", runs as u64);
    }
    rep.distinct(hash(&format!("{:?}", g.doc)));
}

// ---------------------------------------------------------------------------------------------
// Recording

fn scalar(r: &mut Rng, id: usize) -> (String, Vec<u32>) {
    match r.below(8) {
        0..=2 => ("num".into(), vec![1000 + id as u32]),
        3 | 4 => {
            let n = match r.below(4) {
                0 => 0,
                1 => 1,
                _ => r.range(1, 6),
            };
            if r.chance(20) {
                return ("str".into(), r.pick(harness::cursor::TAG_NAMES).chars().map(|c| c as u32).collect());
            }
            ("str".into(), (0..n).map(|_| harness::gen::any_char(r) as u32).collect())
        }
        5 => ("bool".into(), vec![r.below(2) as u32]),
        _ => ("null".into(), vec![]),
    }
}

const KEYS: &[&str] = &["a", "b", "c", "aa", "ab", "abc", "", "é", "è", "a\"", "\n", "aé", "k", "bb", "ba"];

fn random_doc(r: &mut Rng, size: usize, wide: bool, dup: bool) -> Document {
    let mut doc: Document = Vec::new();
    grow(r, size, 0, wide, dup, &mut doc);
    if !wide && r.chance(10) {
        // long keys with the same start
        let stem: Vec<u32> = harness::gen::stem(r).chars().map(|c| c as u32).collect();
        let all = r.chance(70);
        for i in 0..doc.len() {
            let kids = doc[i].c.clone();
            if doc[i].k == "obj" && (all || r.chance(60)) {
                for c in kids {
                    let key = std::mem::take(&mut doc[c].key);
                    doc[c].key = stem.iter().copied().chain(key).collect();
                }
            }
        }
    }
    doc
}

fn grow(r: &mut Rng, budget: usize, depth: usize, wide: bool, dup: bool, doc: &mut Document) -> usize {
    let me = doc.len();
    doc.push(DocNode { k: String::new(), c: vec![], key: vec![], v: vec![] });
    if budget <= 1 && r.chance(80) || depth > 12 || (depth > 0 && r.chance(15)) {
        let (k, v) = scalar(r, me);
        doc[me].k = k;
        doc[me].v = v;
        return me;
    }
    let obj = r.chance(65);
    doc[me].k = if obj { "obj" } else { "arr" }.into();
    let mut left = budget.saturating_sub(1);
    let n = if left == 0 {
        0
    } else if wide && depth == 0 {
        left
    } else {
        r.range(1, left.min(6))
    };
    let mut used: Vec<Vec<u32>> = Vec::new();
    for i in 0..n {
        let share = if i + 1 == n || wide { left } else { r.range(1, left.max(1)) };
        let share = if wide && depth == 0 { 1 } else { share };
        let c = grow(r, share, depth + 1, wide, dup, doc);
        left = left.saturating_sub(share);
        if obj {
            let mut k: Vec<u32> = if r.chance(85) {
                r.pick(KEYS).chars().map(|c| c as u32).collect()
            } else {
                (0..r.below(12)).map(|_| harness::gen::any_char(r) as u32).collect()
            };
            if !(dup && r.chance(40)) {
                while used.contains(&k) {
                    k.push(97 + r.below(26) as u32);
                }
            }
            used.push(k.clone());
            doc[c].key = k;
        }
        doc[me].c.push(c);
    }
    me
}

#[derive(Clone, Copy)]
struct Mix {
    iter: usize,
    key: usize,
    skip: usize,
    close: usize,
    wrong: usize,
    strukt: usize,
    mark: usize,
}

fn mix(prop: &str) -> Mix {
    match prop {
        "C03" => Mix { iter: 12, key: 70, skip: 6, close: 8, wrong: 0, strukt: 15, mark: 0 },
        "C04" => Mix { iter: 70, key: 30, skip: 6, close: 3, wrong: 0, strukt: 5, mark: 0 },
        "C05" => Mix { iter: 30, key: 25, skip: 40, close: 12, wrong: 0, strukt: 10, mark: 0 },
        "C21" => Mix { iter: 30, key: 30, skip: 15, close: 12, wrong: 12, strukt: 15, mark: 30 },
        "C23" => Mix { iter: 30, key: 20, skip: 8, close: 30, wrong: 0, strukt: 15, mark: 0 },
        "C26" => Mix { iter: 30, key: 30, skip: 8, close: 20, wrong: 15, strukt: 12, mark: 0 },
        _ => Mix { iter: 30, key: 30, skip: 20, close: 20, wrong: 5, strukt: 10, mark: 10 },
    }
}

/// Where the session is believed to be; only guides the choice of calls.
struct Guide<'a> {
    doc: &'a Document,
    frames: Vec<(usize, Vec<usize>)>,
    dup: bool,
}

impl Guide<'_> {
    fn key(&self, r: &mut Rng) -> String {
        let (n, left) = self.frames.last().unwrap();
        let cs = &self.doc[*n].c;
        let k = match r.below(10) {
            0..=5 if !left.is_empty() => {
                let i = match r.below(4) {
                    0 => left.len() - 1,
                    _ => r.below(left.len()),
                };
                string(&self.doc[left[i]].key)
            }
            6 if !cs.is_empty() => string(&self.doc[*r.pick(cs)].key),
            7 if !cs.is_empty() => {
                let near = harness::visit::near(&string(&self.doc[*r.pick(cs)].key));
                r.pick(&near).clone()
            }
            _ => string(&self.doc[r.below(self.doc.len())].key),
        };
        if self.dup && self.frames.last().unwrap().1.iter().filter(|m| string(&self.doc[**m].key) == k).count() > 1 {
            return "nothing has this key".into();
        }
        k
    }
    fn take(&mut self, key: &str) -> Option<usize> {
        let doc = self.doc;
        let (_, left) = self.frames.last_mut()?;
        let i = left.iter().position(|m| string(&doc[*m].key) == key)?;
        Some(left.remove(i))
    }
    fn first(&mut self) -> Option<usize> {
        let (_, left) = self.frames.last_mut()?;
        if left.is_empty() {
            return None;
        }
        Some(left.remove(0))
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Top {
    Value(usize),
    Virtual,
    Str(usize),
    Key(usize),
    Coll,
    Done,
}

fn weighted(r: &mut Rng, v: &[(&'static str, usize)]) -> &'static str {
    let total: usize = v.iter().map(|x| x.1).sum();
    let mut i = r.below(total);
    for (a, w) in v {
        if i < *w {
            return a;
        }
        i -= w;
    }
    unreachable!()
}

/// How often a value is read as a tag, if it is one.
fn tag(n: &harness::cursor::DocNode) -> usize {
    match n.k.as_str() {
        "str" if TAG_NAMES.iter().any(|x| x.chars().map(|c| c as u32).eq(n.v.iter().copied())) => 30,
        "num" if n.v[0] as usize <= MAX_TAG => 20,
        _ => 0,
    }
}

const WRONG: &[&str] = &["bool", "num", "null", "str", "char", "tag", "obj", "list", "struct", "openstr", "tuple"];

/// A random session through the raw calls.
fn raw<R: TextReader>(
    reader: R,
    comments: bool,
    doc: &Document,
    dup: bool,
    m: Mix,
    r: &mut Rng,
    pos: &dyn Fn(&R::Position) -> i64,
    ev: &Mutex<Vec<Event>>,
) {
    let mut d = match TextDeserializer::new(harness::visit::config(comments), reader) {
        Ok(d) => Some(d),
        Err(e) => {
            ev.lock().unwrap().push(Event { a: "close", x: String::new(), r: error(&e, pos) });
            return;
        }
    };
    let mut g = Guide { doc, frames: Vec::new(), dup };
    let mut top = Top::Value(0);
    let mut steps = 0;
    loop {
        steps += 1;
        let tired = steps > 250;
        let mut x = String::new();
        let a = match top {
            Top::Value(n) => {
                let k = doc[n].k.as_str();
                if tired {
                    "skip"
                } else {
                    let strukt = m.strukt;
                    let mut c: Vec<(&'static str, usize)> = match k {
                        "obj" => vec![("obj", 100), ("struct", strukt)],
                        "arr" => vec![("list", 60), ("tuple", 40), ("struct", strukt)],
                        "str" => vec![("str", 50), ("openstr", 50), ("char", if doc[n].v.len() == 1 { 50 } else { 0 }), ("tag", tag(&doc[n]))],
                        "num" => vec![("num", 100), ("tag", tag(&doc[n]))],
                        "bool" => vec![("bool", 100)],
                        _ => vec![("null", 100)],
                    };
                    c.extend([("skip", m.skip), ("check", 12), ("ty", 5), ("mark", m.mark / 4), ("wrong", m.wrong)]);
                    weighted(r, &c)
                }
            }
            Top::Virtual => weighted(r, &[("null", 40), ("check", 40), ("skip", 10), ("ty", 5), ("wrong", m.wrong.max(2))]),
            Top::Str(n) | Top::Key(n) => {
                let _ = n;
                weighted(r, &[("next", 50), ("flush", 25), ("skipstr", 15), ("closestr", if matches!(top, Top::Str(_)) { 2 } else { 0 })])
            }
            Top::Coll => {
                let (n, left) = g.frames.last().unwrap();
                let empty = left.is_empty();
                let done = if empty { m.close * 3 + 5 } else { 1 };
                if doc[*n].k == "obj" {
                    if tired {
                        "skipobj"
                    } else {
                        weighted(
                            r,
                            &[
                                ("entry", m.iter),
                                ("try", m.key),
                                ("push", if empty { 1 } else { m.key / 4 }),
                                ("field", m.key / 4 + m.strukt / 3),
                                ("pushnull", 2),
                                ("skipobj", m.close / 2 + 1),
                                ("closestruct", m.close / 2 + 1),
                                ("closeobj", if empty { done } else { (m.close + 9) / 10 }),
                                ("cty", 2),
                                ("mark", m.mark),
                            ],
                        )
                    }
                } else if tired {
                    "item"
                } else {
                    weighted(
                        r,
                        &[
                            ("item", m.iter.max(30)),
                            ("pushitem", if empty { 1 } else { m.close }),
                            ("pushelement", if empty { 1 } else { m.close }),
                            ("field", if empty { 1 } else { m.close / 2 }),
                            ("closelist", done),
                            ("closetuple", done),
                            ("closestruct", done),
                            ("pushnull", 1),
                            ("cty", 2),
                            ("mark", m.mark),
                        ],
                    )
                }
            }
            Top::Done => weighted(r, &[("close", 70), ("mark", m.mark)]),
        };
        let a = if a == "wrong" { *r.pick(WRONG) } else { a };
        if matches!(a, "try" | "push" | "field") {
            x = g.key(r);
            if a == "push" && r.chance(if m.wrong > 0 { 70 } else { 95 }) {
                // mostly keys that are there
                let (_, left) = g.frames.last().unwrap();
                if !left.is_empty() && !g.dup {
                    x = string(&doc[*r.pick(left)].key);
                }
            }
        }
        ev.lock().unwrap().push(Event { a, x: x.clone(), r: Res::new("panic") });
        let res = perform(&mut d, a, &x, pos);
        let failed = matches!(res.k.as_str(), "err" | "missing" | "extra" | "few" | "many");
        ev.lock().unwrap().last_mut().unwrap().r = res.clone();
        if failed || a == "close" {
            return;
        }
        let yes = res.k == "yes";
        let below = |g: &Guide| if g.frames.is_empty() { Top::Done } else { Top::Coll };
        let next = match (a, top) {
            ("mark" | "ty" | "cty", t) => Some(t),
            ("obj" | "list" | "struct" | "tuple", Top::Value(n)) => {
                g.frames.push((n, doc[n].c.clone()));
                Some(Top::Coll)
            }
            ("openstr", Top::Value(n)) => Some(Top::Str(n)),
            ("check", Top::Value(_)) => Some(if yes { below(&g) } else { top }),
            (_, Top::Value(_)) => Some(below(&g)),
            ("check", Top::Virtual) if !yes => None,
            (_, Top::Virtual) => Some(below(&g)),
            ("next", Top::Str(_) | Top::Key(_)) if res.k == "char" => Some(top),
            (_, Top::Str(_)) => Some(below(&g)),
            (_, Top::Key(n)) => Some(Top::Value(n)),
            ("entry", Top::Coll) => {
                if yes {
                    g.first().map(Top::Key)
                } else if g.first().is_none() {
                    g.frames.pop();
                    Some(below(&g))
                } else {
                    None
                }
            }
            ("try", Top::Coll) => match (yes, g.take(&x)) {
                (true, Some(n)) => Some(Top::Value(n)),
                (false, None) => Some(top),
                _ => None,
            },
            ("push", Top::Coll) => g.take(&x).map(Top::Value),
            ("field", Top::Coll) => {
                if doc[g.frames.last().unwrap().0].k == "obj" {
                    Some(g.take(&x).map(Top::Value).unwrap_or(Top::Virtual))
                } else {
                    g.first().map(Top::Value)
                }
            }
            ("pushnull", Top::Coll) => Some(Top::Virtual),
            ("item", Top::Coll) => {
                if yes {
                    g.first().map(Top::Value)
                } else if g.first().is_none() {
                    g.frames.pop();
                    Some(below(&g))
                } else {
                    None
                }
            }
            ("pushitem" | "pushelement", Top::Coll) => g.first().map(Top::Value),
            (_, Top::Coll) => {
                g.frames.pop();
                Some(below(&g))
            }
            _ => None,
        };
        match next {
            Some(t) => top = t,
            // the specification does not allow what was answered; the trace checker will say so
            None => return,
        }
    }
}

/// A random session through the helper wrappers.
struct Wrapped<'a, P> {
    ev: &'a Mutex<Vec<Event>>,
    pos: &'a dyn Fn(&P) -> i64,
    m: Mix,
    dup: bool,
    steps: usize,
}

/// The session has ended with a recorded error (or an answer the specification rules out).
enum Stop<E> {
    Error(E),
    Answer,
}

impl<P> Wrapped<'_, P> {
    fn call<T>(
        &mut self,
        a: &'static str,
        x: &str,
        f: impl FnOnce() -> Result<T, DeserializeError<P>>,
        ok: impl FnOnce(&T) -> Res,
    ) -> Result<T, Stop<DeserializeError<P>>> {
        self.steps += 1;
        self.ev.lock().unwrap().push(Event { a, x: x.to_string(), r: Res::new("panic") });
        let (out, r) = match f() {
            Ok(v) => {
                let r = ok(&v);
                (Ok(v), r)
            }
            Err(e) => {
                let r = error(&e, self.pos);
                (Err(Stop::Error(e)), r)
            }
        };
        self.ev.lock().unwrap().last_mut().unwrap().r = r;
        out
    }
}

fn ok<T>(_: &T) -> Res {
    Res::new("ok")
}

fn yes<T>(o: &Option<T>) -> Res {
    Res::new(if o.is_some() { "yes" } else { "no" })
}

type W<R> = Result<(), Stop<DeserializeError<<R as TextReader>::Position>>>;

fn wrapped<R: TextReader>(
    value: Value<TextDeserializer<R>>,
    node: Option<usize>,
    doc: &Document,
    r: &mut Rng,
    w: &mut Wrapped<R::Position>,
) -> W<R> {
    let tired = w.steps > 250;
    let m = w.m;
    let mut value = value;
    if r.chance(8) {
        let t = Res::new(type_name(value.ty()));
        w.ev.lock().unwrap().push(Event { a: "ty", x: String::new(), r: t });
    }
    if r.chance(15) || (node.is_none() && r.chance(60)) {
        let b = w.call("check", "", || value.check_null(), |b| Res::new(if *b { "yes" } else { "no" }))?;
        if b {
            return Ok(());
        }
        if node.is_none() {
            return Err(Stop::Answer);
        }
    }
    if tired || r.below(100) < m.skip {
        return w.call("skip", "", || value.skip(), ok).map(|_| ());
    }
    if r.chance(10) {
        // through a validation wrapper: its error is positioned at the value
        let inner = w.call("skip", "", || {
            let (d, done) = value.into_raw();
            d.skip_value()?;
            *done = true;
            Ok(d)
        }, ok)?;
        let p = inner.error("mark".into());
        let at = (w.pos)(p.position());
        w.ev.lock().unwrap().push(Event { a: "mark", x: String::new(), r: Res::with("at", vec![at]) });
        return Ok(());
    }
    let kind = node.map(|n| doc[n].k.as_str()).unwrap_or("null");
    let kind = if r.below(100) < m.wrong { *r.pick(&["obj", "arr", "str", "num", "bool", "null"]) } else { kind };
    match kind {
        "bool" => w.call("bool", "", || value.get_bool(), |b| Res::with("bool", vec![*b as i64])).map(|_| ()),
        "num" | "str" if node.is_some_and(|n| tag(&doc[n]) > 0) && r.chance(30) => {
            w.call("tag", "", || value.get_tag(MAX_TAG, TAGS), |b| Res::with("tag", vec![*b as i64])).map(|_| ())
        }
        "num" | "str" if r.below(300) < m.wrong => {
            w.call("tag", "", || value.get_tag(MAX_TAG, TAGS), |b| Res::with("tag", vec![*b as i64])).map(|_| ())
        }
        "num" => w.call("num", "", || value.get_i64(), |b| Res::with("num", vec![*b])).map(|_| ()),
        "str" => {
            if node.is_some_and(|n| doc[n].v.len() == 1) && r.chance(50) {
                w.call("char", "", || value.get_char(), |b| Res::with("char", vec![*b as i64])).map(|_| ())
            } else {
                w.call("str", "", || value.get_str().map(|s| s.into_owned()), |s| Res::with("str", codes(s))).map(|_| ())
            }
        }
        "null" => w.call("null", "", || value.into_null(), |_| Res::new("null")).map(|_| ()),
        _ => container(value, kind, node, doc, r, w),
    }
}

fn container<R: TextReader>(
    value: Value<TextDeserializer<R>>,
    kind: &str,
    node: Option<usize>,
    doc: &Document,
    r: &mut Rng,
    w: &mut Wrapped<R::Position>,
) -> W<R> {
    let m = w.m;
    let members = node.map(|n| doc[n].c.clone()).unwrap_or_default();
    let mut g = Guide { doc, frames: vec![(node.unwrap_or(0), members)], dup: w.dup };
    if r.below(100) < m.strukt {
        let mut st: Struct<_> = w.call("struct", "", || value.into_struct(None), ok)?;
        let obj = node.is_some_and(|n| doc[n].k == "obj");
        loop {
            let left = g.frames[0].1.len();
            let stop = if obj { r.chance(25) } else { left == 0 || r.chance(3) };
            if stop {
                return w.call("closestruct", "", || st.close(), ok).map(|_| ());
            }
            let x = if obj { g.key(r) } else { "f".into() };
            let v = w.call("field", &x, || st.field(leak(&x)), ok)?;
            let n = if obj { g.take(&x) } else { g.first() };
            if n.is_none() && !obj {
                return Err(Stop::Answer);
            }
            wrapped(v, n, doc, r, w)?;
        }
    }
    if node.is_some_and(|n| doc[n].k == kind) && r.chance(25) {
        // objects and arrays alike
        let a = if kind == "obj" { "obj" } else { "list" };
        let mut c = w.call(a, "", || value.into_collection(), |c| {
            let o = matches!(c, Collection::Object(_));
            Res::new(if o == (kind == "obj") { "ok" } else { "wrong kind of collection" })
        })?;
        let obj = matches!(c, Collection::Object(_));
        loop {
            if obj {
                let v = w.call("entry", "", || c.next(), yes)?;
                let Some(v) = v else {
                    return Ok(());
                };
                w.ev.lock().unwrap().push(Event { a: "skipstr", x: String::new(), r: Res::new("ok") });
                let Some(n) = g.first() else { return Err(Stop::Answer) };
                wrapped(v, Some(n), doc, r, w)?;
            } else {
                let v = w.call("item", "", || c.next(), yes)?;
                let Some(v) = v else {
                    return Ok(());
                };
                let Some(n) = g.first() else { return Err(Stop::Answer) };
                wrapped(v, Some(n), doc, r, w)?;
            }
        }
    }
    if kind == "obj" {
        let mut o = w.call("obj", "", || value.into_object(), ok)?;
        loop {
            let left = &g.frames[0].1;
            let tired = w.steps > 250;
            let a = if tired {
                "entry"
            } else {
                weighted(
                    r,
                    &[
                        ("entry", m.iter.max(5)),
                        ("try", m.key),
                        ("push", if left.is_empty() { 1 } else { m.key / 4 }),
                        ("closeobj", if left.is_empty() { m.close * 3 + 5 } else { (m.close + 9) / 10 }),
                    ],
                )
            };
            match a {
                "entry" => {
                    let Some(mut e) = w.call("entry", "", || o.next_entry(), yes)? else {
                        return Ok(());
                    };
                    if r.chance(75) {
                        w.call("flush", "", || e.key().map(|k| k.into_owned()), |k| Res::with("str", codes(k)))?;
                        let v = e.value().map_err(Stop::Error)?;
                        let Some(n) = g.first() else { return Err(Stop::Answer) };
                        wrapped(v, Some(n), doc, r, w)?;
                    } else {
                        let v = w.call("skipstr", "", || e.value(), ok)?;
                        let Some(n) = g.first() else { return Err(Stop::Answer) };
                        wrapped(v, Some(n), doc, r, w)?;
                    }
                }
                "try" => {
                    let x = g.key(r);
                    let v = w.call("try", &x, || o.try_entry(&x), yes)?;
                    match (v, g.take(&x)) {
                        (Some(v), Some(n)) => wrapped(v, Some(n), doc, r, w)?,
                        (None, None) => {}
                        _ => return Err(Stop::Answer),
                    }
                }
                "push" => {
                    let x = g.key(r);
                    let v = w.call("push", &x, || o.entry(&x), ok)?;
                    let Some(n) = g.take(&x) else { return Err(Stop::Answer) };
                    wrapped(v, Some(n), doc, r, w)?;
                }
                _ => return w.call("closeobj", "", || o.close(), ok).map(|_| ()),
            }
        }
    }
    if r.chance(40) {
        let mut t: Tuple<_> = w.call("tuple", "", || value.into_tuple(None), ok)?;
        loop {
            let left = g.frames[0].1.len();
            if left == 0 && r.chance(90) || r.chance(4) {
                return w.call("closetuple", "", || t.close(), ok).map(|_| ());
            }
            let v = w.call("pushelement", "", || t.element(), ok)?;
            let Some(n) = g.first() else { return Err(Stop::Answer) };
            wrapped(v, Some(n), doc, r, w)?;
        }
    }
    let mut l: List<_> = w.call("list", "", || value.into_list(), ok)?;
    loop {
        let left = g.frames[0].1.len();
        match weighted(r, &[("item", 70), ("pushitem", if left == 0 { 1 } else { 15 }), ("closelist", if left == 0 { 25 } else { 1 })]) {
            "item" => {
                let Some(v) = w.call("item", "", || l.next(), yes)? else {
                    return Ok(());
                };
                let Some(n) = g.first() else { return Err(Stop::Answer) };
                wrapped(v, Some(n), doc, r, w)?;
            }
            "pushitem" => {
                let v = w.call("pushitem", "", || l.push(), ok)?;
                let Some(n) = g.first() else { return Err(Stop::Answer) };
                wrapped(v, Some(n), doc, r, w)?;
            }
            _ => return w.call("closelist", "", || l.close(), ok).map(|_| ()),
        }
    }
}

fn wrapper_session<R: TextReader>(
    reader: R,
    comments: bool,
    doc: &Document,
    dup: bool,
    m: Mix,
    r: &mut Rng,
    pos: &dyn Fn(&R::Position) -> i64,
    ev: &Mutex<Vec<Event>>,
) {
    let mut d = match TextDeserializer::new(harness::visit::config(comments), reader) {
        Ok(d) => d,
        Err(e) => {
            ev.lock().unwrap().push(Event { a: "close", x: String::new(), r: error(&e, pos) });
            return;
        }
    };
    let mut w = Wrapped { ev, pos, m, dup, steps: 0 };
    let mut stopped = false;
    let out = Value::with(&mut d, |v| match wrapped(v, Some(0), doc, r, &mut w) {
        Ok(()) => Ok(()),
        Err(Stop::Error(e)) => Err(e),
        Err(Stop::Answer) => {
            stopped = true;
            Err(DeserializeError::new(unreachable_position(), DeserializeErrorMessage::UnexpectedEof))
        }
    });
    if out.is_ok() {
        let mut slot = Some(d);
        ev.lock().unwrap().push(Event { a: "close", x: String::new(), r: Res::new("panic") });
        let res = perform(&mut slot, "close", "", pos);
        ev.lock().unwrap().last_mut().unwrap().r = res;
    }
}

struct StopSession;

fn unreachable_position<P>() -> P {
    std::panic::panic_any(StopSession)
}

fn record(rep: &Report, t: usize, prop: &str, seed: u64, job: usize, out: &Mutex<Vec<(String, String)>>) {
    let mut r = Rng::new(seed.wrapping_mul(1_000_003) ^ (job as u64) << 20 ^ hash(prop));
    let m = mix(prop);
    for _ in 0..20 {
        let dup = prop == "C04" && r.chance(20);
        let (size, wide) = match r.below(40) {
            0 => (r.range(60, 250), true),
            1..=9 => (r.range(1, 5), false),
            10..=30 => (r.range(5, 20), false),
            _ => (r.range(20, 60), false),
        };
        let doc = random_doc(&mut r, size, wide, dup);
        let style = Style { space: *r.pick(&[0, 15, 40]), comments: r.chance(30) };
        let (text, at) = render(&doc, style, &mut r);
        let wrap = r.chance(45);
        let bytes = r.chance(25);
        let ev = Mutex::new(Vec::new());
        rep.case(t, || format!("session over {text:?}"));
        let nodes: HashMap<usize, i64> = at.iter().enumerate().map(|(i, o)| (*o, i as i64 + 1)).collect();
        let mut rr = r.fork();
        let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if bytes {
                let lines: HashMap<(usize, usize), i64> =
                    at.iter().enumerate().map(|(i, o)| (harness::machine::position(&text, *o), i as i64 + 1)).collect();
                let pos = |p: &LineColumnPosition| lines.get(&(p.line, p.column)).copied().unwrap_or(0);
                let reader = Utf8Reader::new(harness::visit::Chunks::new(text.as_bytes(), rr.fork())).unwrap();
                if wrap {
                    wrapper_session(reader, style.comments, &doc, dup, m, &mut rr, &pos, &ev)
                } else {
                    raw(reader, style.comments, &doc, dup, m, &mut rr, &pos, &ev)
                }
            } else {
                let pos = |p: &serdere::StrPosition| {
                    harness::visit::offset(&text, p).and_then(|o| nodes.get(&o).copied()).unwrap_or(0)
                };
                if wrap {
                    wrapper_session(text.as_str(), style.comments, &doc, dup, m, &mut rr, &pos, &ev)
                } else {
                    raw(text.as_str(), style.comments, &doc, dup, m, &mut rr, &pos, &ev)
                }
            }
        }));
        let events = ev.into_inner().unwrap_or_else(|p| p.into_inner());
        if let Err(p) = result {
            if !p.is::<StopSession>() {
                let msg = harness::report::PANIC.with(|p| p.borrow().clone());
                rep.violation(&format!("panicked: {msg}"), &format!("{text:?}: {}", show(&events)));
                return;
            }
        }
        rep.count("recorded_sessions", 1);
        rep.count("recorded_calls", events.len() as u64);
        rep.distinct(hash(&format!("{:?}", events)));
        rep.sample(|| format!("{text:?}: {}", show(&events)));
        let told = harness::cursor::TOLD.with(|t| t.borrow_mut().take());
        if prop == "C26" && told.is_none() {
            continue;
        }
        let line = session_line(&doc, &events, told.as_ref().filter(|_| prop == "C26"));
        out.lock().unwrap().push((line, format!("{text:?}: {}", show(&events))));
    }
}

fn show(ev: &[Event]) -> String {
    ev.iter()
        .map(|e| {
            let x = if e.x.is_empty() { String::new() } else { format!("({:?})", e.x) };
            format!("{}{}={}{}", e.a, x, e.r.k, if e.r.v.is_empty() { String::new() } else { format!("{:?}", e.r.v) })
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn main() {
    let args = Args::parse();
    let threads = 8;
    let rep = Report::new(&args, threads);
    let prop = args.get("prop").to_string();
    let seed = args.seed();
    if let Some(path) = args.opt("graph") {
        let gs = load(path);
        rep.count("documents", gs.len() as u64);
        let cap = if args.thorough() { 60_000 } else { 600 };
        let variants = if args.thorough() { 4 } else { 1 };
        parallel(&rep, threads, gs.len(), |t, j| {
            let g = &gs[j];
            // the quick tier takes each document in one of the renderings
            if variants == 1 {
                explore(&rep, t, g, seed + j as u64, cap, 1);
            } else {
                explore(&rep, t, g, seed, cap, variants);
            }
            if args.thorough() {
                stretched(&rep, t, g, seed, 12);
                deepened(&rep, t, g, seed, 12);
            } else if j % 3 == seed as usize % 3 {
                stretched(&rep, t, g, seed, 1 + j % 2);
            } else if j % 3 == (seed as usize + 1) % 3 {
                deepened(&rep, t, g, seed, 1 + j % 2);
            }
        });
    }
    let jobs: usize = args.opt("sessions").map(|s| s.parse::<usize>().unwrap()).unwrap_or(2000) / 20;
    let jobs = if args.thorough() { jobs * 20 } else { jobs };
    let out = Mutex::new(Vec::new());
    parallel(&rep, threads, jobs, |t, j| record(&rep, t, &prop, seed, j, &out));
    let mut out = out.into_inner().unwrap();
    out.sort();
    let mut seen = HashSet::new();
    out.retain(|l| seen.insert(hash(&l.0)));
    if let Ok(dir) = std::env::var("VERIF_WORK") {
        let lines: String = out.iter().map(|l| format!("{}\n", l.0)).collect();
        std::fs::write(format!("{dir}/sessions.ndjson"), lines).unwrap();
        let show: String = out.iter().map(|l| format!("{}\n", l.1.replace('\n', " "))).collect();
        std::fs::write(format!("{dir}/sessions.show"), show).unwrap();
    }
    rep.finish();
}

