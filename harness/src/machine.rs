//! Interprets the transducer table printed by the specification (JsonText.tla) on concrete texts.
use crate::json::J;
use crate::rng::Rng;
use std::collections::HashMap;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Tag {
    OpenA,
    CloseA,
    OpenO,
    CloseO,
    StrStart,
    KeyStart,
    StrEnd,
    KeyEnd,
    Char,
    Esc(u32),
    Mark,
    Hex,
    Unit,
    SaveHigh,
    Pair,
    NumStart,
    NumEnd,
    LitStart,
    True,
    False,
    Null,
}

fn tag(s: &str) -> Tag {
    use Tag::*;
    match s {
        "[" => OpenA,
        "]" => CloseA,
        "{" => OpenO,
        "}" => CloseO,
        "S" => StrStart,
        "K" => KeyStart,
        "s" => StrEnd,
        "k" => KeyEnd,
        "c" => Char,
        "x" => Mark,
        "h" => Hex,
        "u" => Unit,
        "p" => SaveHigh,
        "U" => Pair,
        "N" => NumStart,
        "n" => NumEnd,
        "L" => LitStart,
        "T" => True,
        "F" => False,
        "Z" => Null,
        _ => Esc(s.strip_prefix('e').unwrap_or_else(|| panic!("tag {s}")).parse().unwrap()),
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum At {
    No,
    Cur,
    Lit,
    Esc,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum End {
    Accept,
    Lit,
    Esc,
    End,
}

#[derive(Debug, Clone)]
pub struct Cell {
    pub next: u16,
    /// 0 none, 1 pop, 2 push A, 3 push O
    pub op: u8,
    pub out: Vec<Tag>,
    pub err: At,
    /// the kind of fault, an index into `Table::truth`
    pub what: Option<u8>,
}

pub struct Mode {
    /// (q * 3 + top) * classes + class
    pub cells: Vec<Cell>,
    pub end: Vec<End>,
}

pub struct Table {
    ascii: [u8; 128],
    other: u8,
    pub classes: Vec<String>,
    pub reps: Vec<Vec<char>>,
    pub controls: Vec<String>,
    pub start: u16,
    pub error: u16,
    pub modes: [Mode; 2],
    /// for each control, classes that complete it (without the closers of open containers)
    pub rest: Vec<Vec<u8>>,
    /// position steps: newline, tab, carriage return, other; from (1, 7)
    pub pos: [(usize, usize); 4],
    /// what the message of an error may be, for each kind of fault
    pub truth: Vec<(String, Vec<String>)>,
    /// how the position (1, 7) is shown
    pub shown: (usize, usize),
}

pub const OTHERS: &[char] = &[
    'k', 'g', 'Z', 'q', '_', '~', '\'', ';', '$', '\u{7f}', '\u{80}', '\u{a0}', 'é', 'ß', '\u{7ff}',
    '\u{800}', '\u{2028}', '\u{2029}', '€', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}',
    '\u{10000}', '😀', '\u{95832}', '\u{10ffff}', '\u{85}', '\u{3000}',
];

impl Table {
    pub fn load(j: &J) -> Table {
        let classes: Vec<String> = {
            let mut v: Vec<String> =
                j.get("classes").arr().iter().map(|c| c.str().to_string()).collect();
            v.sort();
            v
        };
        let cid: HashMap<&str, u8> =
            classes.iter().enumerate().map(|(i, c)| (c.as_str(), i as u8)).collect();
        let other = cid["ot"];
        let mut ascii = [other; 128];
        for r in j.get("ranges").arr() {
            let r = r.arr();
            for c in r[1].int()..=r[2].int() {
                ascii[c as usize] = cid[r[0].str()];
            }
        }
        let mut reps = vec![Vec::new(); classes.len()];
        for c in 0..128u8 {
            if ascii[c as usize] != other {
                reps[ascii[c as usize] as usize].push(c as char);
            }
        }
        reps[other as usize] = OTHERS.to_vec();
        let mut controls: Vec<String> = Vec::new();
        let mut qid: HashMap<String, u16> = HashMap::new();
        for r in j.get("strict").arr() {
            let q = r.get("q").str();
            if !qid.contains_key(q) {
                qid.insert(q.to_string(), controls.len() as u16);
                controls.push(q.to_string());
            }
        }
        let error = controls.len() as u16;
        qid.insert("X".to_string(), error);
        controls.push("X".to_string());
        let truth: Vec<(String, Vec<String>)> = j
            .get("truth")
            .obj()
            .iter()
            .map(|(k, v)| (k.to_string(), v.arr().iter().map(|m| m.str().to_string()).collect()))
            .collect();
        let kind_of_fault = |k: &str| truth.iter().position(|t| t.0 == k).map(|i| i as u8);
        let mut rest = vec![Vec::new(); controls.len()];
        let mut mode = |name: &str| {
            let nc = classes.len();
            let empty = Cell { next: error, op: 0, out: vec![], err: At::Cur, what: None };
            let mut cells = vec![empty; controls.len() * 3 * nc];
            let mut end = vec![End::End; controls.len() * 3];
            for r in j.get(name).arr() {
                let q = qid[r.get("q").str()] as usize;
                let t = match r.get("top").str() {
                    "-" => 0,
                    "A" => 1,
                    _ => 2,
                };
                end[q * 3 + t] = match r.get("eof").str() {
                    "accept" => End::Accept,
                    "lit" => End::Lit,
                    "esc" => End::Esc,
                    "end" => End::End,
                    s => panic!("eof {s}"),
                };
                rest[q] = r.get("rest").arr().iter().map(|c| cid[c.str()]).collect();
                for (c, cell) in r.get("row").obj() {
                    cells[(q * 3 + t) * nc + cid[c.as_str()] as usize] = Cell {
                        next: qid[cell.get("n").str()],
                        op: match cell.get("op").str() {
                            "none" => 0,
                            "pop" => 1,
                            "A" => 2,
                            "O" => 3,
                            s => panic!("op {s}"),
                        },
                        out: cell.get("out").arr().iter().map(|t| tag(t.str())).collect(),
                        err: match cell.get("err").str() {
                            "no" => At::No,
                            "cur" => At::Cur,
                            "lit" => At::Lit,
                            "esc" => At::Esc,
                            s => panic!("err {s}"),
                        },
                        what: kind_of_fault(cell.get("what").str()),
                    };
                }
            }
            Mode { cells, end }
        };
        let modes = [mode("strict"), mode("permissive")];
        let pos = ["nl", "tab", "cr", "other"].map(|k| {
            let p = j.get("pos").get(k);
            (p.get("line").int() as usize, p.get("col").int() as usize)
        });
        let start = qid["V"];
        let shown = j.get("shown").arr();
        let shown = (shown[0].int() as usize, shown[1].int() as usize);
        Table { truth, shown, ascii, other, classes, reps, controls, start, error, modes, rest, pos }
    }

    pub fn class(&self, c: char) -> u8 {
        if (c as u32) < 128 {
            self.ascii[c as usize]
        } else {
            self.other
        }
    }
    pub fn cell(&self, comments: bool, q: u16, top: usize, class: u8) -> &Cell {
        &self.modes[comments as usize].cells
            [(q as usize * 3 + top) * self.classes.len() + class as usize]
    }
    pub fn id(&self, class: &str) -> u8 {
        self.classes.iter().position(|c| c == class).unwrap() as u8
    }
    /// A concrete character of a class.
    pub fn rep(&self, class: u8, rng: &mut Rng) -> char {
        *rng.pick(&self.reps[class as usize])
    }
    /// Completes a configuration to a well-formed text.
    pub fn complete(&self, q: u16, stack: &[u8], rng: &mut Rng, out: &mut String) {
        for c in &self.rest[q as usize] {
            out.push(self.rep(*c, rng));
        }
        for s in stack.iter().rev() {
            out.push(if *s == 1 { ']' } else { '}' });
        }
    }
    /// The line and column of a byte offset.
    pub fn line_col(&self, text: &str, offset: usize) -> (usize, usize) {
        let (mut l, mut c) = (0, 0);
        for ch in text[..offset].chars() {
            let (nl, nc) = match ch {
                '\n' => self.pos[0],
                '\t' => self.pos[1],
                '\r' => self.pos[2],
                _ => self.pos[3],
            };
            if nl != 1 {
                l += nl - 1;
                c = nc;
            } else {
                c += nc - 7;
            }
        }
        (l, c)
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Kind {
    Obj(Vec<(String, usize)>),
    Arr(Vec<usize>),
    Str(String),
    Num(String),
    Bool(bool),
    Null,
}

#[derive(Debug, Clone)]
pub struct Node {
    pub kind: Kind,
    pub start: usize,
    pub end: usize,
}

/// What the specification says about a text.
#[derive(Debug, Clone)]
pub struct Doc {
    pub nodes: Vec<Node>,
    pub root: usize,
    pub keys: Vec<String>,
    /// the byte offset of the error, if the text is not well-formed
    pub error: Option<usize>,
    /// another place where the error may be reported
    pub error_alt: Option<usize>,
    /// a number has an exponent too large to be in scope
    pub huge_exp: bool,
    /// the kind of fault
    pub what: Option<String>,
    /// the configuration at the end of the text, for the part before an error
    pub q: u16,
    pub stack: Vec<u8>,
    /// a comment was seen
    pub comment: bool,
}

impl Doc {
    pub fn ok(&self) -> bool {
        self.error.is_none()
    }
}

fn exp_of(num: &str) -> i64 {
    match num.find(['e', 'E']) {
        None => 0,
        Some(i) => {
            let e = &num[i + 1..];
            let (neg, d) = match e.as_bytes().first().copied().unwrap_or(b'0') {
                b'-' => (true, &e[1..]),
                b'+' => (false, &e[1..]),
                _ => (false, e),
            };
            let mut v: i64 = 0;
            for c in d.bytes().filter(u8::is_ascii_digit) {
                v = (v * 10 + (c - b'0') as i64).min(1 << 40);
            }
            if neg {
                -v
            } else {
                v
            }
        }
    }
}

pub fn is_huge(num: &str) -> bool {
    let e = num.find(['e', 'E']).unwrap_or(num.len());
    exp_of(num).unsigned_abs() + e as u64 > 2_000_000_000
}

pub fn run(t: &Table, text: &str, comments: bool) -> Doc {
    let mut d = Doc {
        nodes: Vec::new(),
        root: 0,
        keys: Vec::new(),
        error: None,
        error_alt: None,
        what: None,
        huge_exp: false,
        q: t.start,
        stack: Vec::new(),
        comment: false,
    };
    let mut open: Vec<usize> = Vec::new();
    let mut key: Vec<Option<String>> = Vec::new();
    let mut q = t.start;
    let (mut mark, mut lit, mut acc, mut high) = (0usize, 0usize, 0u32, 0u32);
    let mut buf = String::new();
    let mut cur = usize::MAX;
    for (i, ch) in text.char_indices() {
        let top = d.stack.last().copied().unwrap_or(0) as usize;
        let cell = t.cell(comments, q, top, t.class(ch));
        for tag in &cell.out {
            match tag {
                Tag::OpenA | Tag::OpenO => {
                    let kind = if *tag == Tag::OpenA { Kind::Arr(vec![]) } else { Kind::Obj(vec![]) };
                    let n = attach(&mut d, &open, &mut key, kind, i);
                    open.push(n);
                    key.push(None);
                }
                Tag::CloseA | Tag::CloseO => {
                    let n = open.pop().unwrap();
                    key.pop();
                    d.nodes[n].end = i + 1;
                }
                Tag::StrStart => {
                    cur = attach(&mut d, &open, &mut key, Kind::Str(String::new()), i);
                    buf.clear();
                }
                Tag::KeyStart => buf.clear(),
                Tag::StrEnd => {
                    d.nodes[cur].kind = Kind::Str(std::mem::take(&mut buf));
                    d.nodes[cur].end = i + 1;
                }
                Tag::KeyEnd => {
                    d.keys.push(buf.clone());
                    *key.last_mut().unwrap() = Some(std::mem::take(&mut buf));
                }
                Tag::Char => buf.push(ch),
                Tag::Esc(c) => buf.push(char::from_u32(*c).unwrap()),
                Tag::Mark => mark = i,
                Tag::Hex => acc = acc * 16 + ch.to_digit(16).unwrap(),
                Tag::Unit => {
                    buf.push(char::from_u32(acc).expect("spec: unit is a scalar value"));
                    acc = 0;
                }
                Tag::SaveHigh => {
                    high = acc;
                    acc = 0;
                }
                Tag::Pair => {
                    let c = 0x10000 + ((high - 0xD800) << 10) + (acc - 0xDC00);
                    buf.push(char::from_u32(c).expect("spec: pair is a scalar value"));
                    acc = 0;
                }
                Tag::NumStart => {
                    lit = i;
                    cur = attach(&mut d, &open, &mut key, Kind::Num(String::new()), i);
                }
                Tag::NumEnd => number_end(&mut d, cur, text, i),
                Tag::LitStart => {
                    lit = i;
                    cur = attach(&mut d, &open, &mut key, Kind::Null, i);
                }
                Tag::True => {
                    d.nodes[cur].kind = Kind::Bool(true);
                    d.nodes[cur].end = i + 1;
                }
                Tag::False => {
                    d.nodes[cur].kind = Kind::Bool(false);
                    d.nodes[cur].end = i + 1;
                }
                Tag::Null => {
                    d.nodes[cur].kind = Kind::Null;
                    d.nodes[cur].end = i + 1;
                }
            }
        }
        match cell.err {
            At::No => {}
            At::Cur => d.error = Some(i),
            At::Lit => d.error = Some(lit),
            At::Esc => d.error = Some(mark),
        }
        if d.error.is_some() {
            d.what = cell.what.map(|w| t.truth[w as usize].0.clone());
            d.q = q;
            return d;
        }
        match cell.op {
            0 => {}
            1 => {
                d.stack.pop();
            }
            2 => d.stack.push(1),
            _ => d.stack.push(2),
        }
        q = cell.next;
        if comments && !d.comment && t.controls[q as usize].starts_with("c0") {
            d.comment = true;
        }
    }
    let top = d.stack.last().copied().unwrap_or(0) as usize;
    d.q = q;
    if cur != usize::MAX && matches!(&d.nodes[cur].kind, Kind::Num(s) if s.is_empty()) {
        d.huge_exp |= is_huge(&text[d.nodes[cur].start..]);
    }
    match t.modes[comments as usize].end[q as usize * 3 + top] {
        End::Accept => {
            if cur != usize::MAX && matches!(&d.nodes[cur].kind, Kind::Num(s) if s.is_empty()) {
                number_end(&mut d, cur, text, text.len());
            }
        }
        End::Lit => {
            d.error = Some(lit);
            d.what = Some("lit".into());
        }
        End::Esc => {
            d.what = Some("esc".into());
            d.error = Some(mark);
            d.error_alt = Some(text.len());
        }
        End::End => {
            d.error = Some(text.len());
            d.what = Some("end".into());
        }
    }
    d
}

fn number_end(d: &mut Doc, cur: usize, text: &str, i: usize) {
    let s = text[d.nodes[cur].start..i].to_string();
    d.huge_exp |= is_huge(&s);
    d.nodes[cur].kind = Kind::Num(s);
    d.nodes[cur].end = i;
}

fn attach(d: &mut Doc, open: &[usize], key: &mut [Option<String>], kind: Kind, start: usize) -> usize {
    let n = d.nodes.len();
    d.nodes.push(Node { kind, start, end: start });
    if let Some(p) = open.last() {
        let k = key.last_mut().unwrap().take();
        match &mut d.nodes[*p].kind {
            Kind::Arr(v) => v.push(n),
            Kind::Obj(v) => v.push((k.expect("spec: entry has a key"), n)),
            _ => unreachable!(),
        }
    }
    n
}

/// The sequence of all reachable configurations with a stack of at most `depth`, each with a
/// shortest sequence of classes that leads to it.
pub fn reachable(t: &Table, comments: bool, depth: usize) -> Vec<(u16, Vec<u8>, Vec<u8>)> {
    let mut seen: HashMap<(u16, Vec<u8>), ()> = HashMap::new();
    let mut out = vec![(t.start, Vec::new(), Vec::new())];
    seen.insert((t.start, Vec::new()), ());
    let mut i = 0;
    while i < out.len() {
        let (q, stack, path): (u16, Vec<u8>, Vec<u8>) = out[i].clone();
        i += 1;
        for c in 0..t.classes.len() as u8 {
            let cell = t.cell(comments, q, stack.last().copied().unwrap_or(0) as usize, c);
            if cell.next == t.error {
                continue;
            }
            let mut s = stack.clone();
            match cell.op {
                0 => {}
                1 => {
                    s.pop();
                }
                2 => s.push(1),
                _ => s.push(2),
            }
            if s.len() > depth || seen.contains_key(&(cell.next, s.clone())) {
                continue;
            }
            seen.insert((cell.next, s.clone()), ());
            let mut p = path.clone();
            p.push(c);
            out.push((cell.next, s, p));
        }
    }
    out
}

/// The lines and columns at all offsets of a text, by offset.
pub fn positions(text: &str) -> Vec<(usize, usize)> {
    let mut all = vec![(0, 0); text.len() + 1];
    let (mut l, mut c) = (0, 0);
    for (i, ch) in text.char_indices() {
        all[i] = (l, c);
        match ch {
            '\n' => (l, c) = (l + 1, 0),
            '\t' => c += 4,
            '\r' => {}
            _ => c += 1,
        }
    }
    all[text.len()] = (l, c);
    all
}

/// The line and column of a byte offset, without a table.
pub fn position(text: &str, offset: usize) -> (usize, usize) {
    let (mut l, mut c) = (0, 0);
    for ch in text[..offset].chars() {
        match ch {
            '\n' => (l, c) = (l + 1, 0),
            '\t' => c += 4,
            '\r' => {}
            _ => c += 1,
        }
    }
    (l, c)
}
