//! Drives the real reader over a text in a given way and records what it delivers; compares the
//! record with what the specification says about the text.
use crate::machine::{Doc, Kind};
use crate::report::catch;
use crate::rng::Rng;
use serdere::{LineColumnPosition, StrPosition, TextReader, Utf8Reader};
use serdere_json::{
    DeserializeError, JsonDeserializer, TextDeserializer, TextDeserializerConfig, ValueType,
};

#[derive(Debug, Clone, PartialEq)]
pub enum V {
    Skipped,
    Obj(Vec<Op>),
    Arr(Vec<usize>),
    /// the characters delivered; false if the rest was skipped
    Str(String, bool),
    Num(u64),
    Bool(bool),
    Null,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Op {
    ByKey(String, Option<usize>),
    /// key characters delivered, whether that was all of it, value
    Iter(String, bool, usize),
    SkipRest,
    End,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Visit {
    pub nodes: Vec<V>,
    pub root: usize,
}

#[derive(Clone)]
pub struct Policy<'a> {
    pub rng: Rng,
    /// percentages
    pub skip: usize,
    pub aside: usize,
    pub by_key: usize,
    pub strukt: usize,
    pub skip_rest: usize,
    pub peek_null: usize,
    /// 0: strings whole; 1: in a random way; 2: character by character
    pub strings: u8,
    /// skip exactly the value with this number in visiting order
    pub skip_at: Option<usize>,
    pub keys: &'a [String],
    pub absent: &'a [String],
    /// keys to ask the outermost object for, first thing
    pub first: &'a [String],
}

pub const STATIC_NAMES: &[&str] = &["", "a", "b", "k", "aa", "ab", "x", "é", "\n", "a\"", "A", "0"];

impl<'a> Policy<'a> {
    pub fn stream(seed: u64) -> Policy<'a> {
        Policy {
            rng: Rng::new(seed),
            skip: 0,
            aside: 0,
            by_key: 0,
            strukt: 0,
            skip_rest: 0,
            peek_null: 0,
            strings: 0,
            skip_at: None,
            keys: &[],
            absent: &[],
            first: &[],
        }
    }
    /// A way of visiting, by name.
    pub fn named(name: &str, seed: u64, keys: &'a [String], absent: &'a [String], dup: bool) -> Policy<'a> {
        let mut p = Policy::stream(seed);
        p.keys = keys;
        p.absent = absent;
        match name {
            "stream" => {}
            "chars" => p.strings = 2,
            "skip" => p.skip = 100,
            "aside" => p.aside = 100,
            "asidechars" => {
                p.aside = 100;
                p.strings = 2;
            }
            "mixed" => {
                p.skip = 15;
                p.aside = 30;
                p.by_key = if dup { 0 } else { 40 };
                p.strukt = if dup { 0 } else { 10 };
                p.skip_rest = 8;
                p.peek_null = 30;
                p.strings = 1;
            }
            _ => panic!("visiting mode {name}"),
        }
        p
    }
}

struct Frame {
    node: usize,
    object: bool,
    strukt: bool,
    tries: usize,
}

fn read_string<D: JsonDeserializer + ?Sized>(d: &mut D, p: &mut Policy) -> Result<(String, bool), D::Error> {
    let mode = match p.strings {
        0 => 0,
        2 => 1,
        _ => p.rng.below(5),
    };
    match mode {
        0 => Ok((d.flush_str()?.into_owned(), true)),
        1 => {
            let mut s = String::new();
            while let Some(c) = d.next_char()? {
                s.push(c);
            }
            Ok((s, true))
        }
        2 => {
            d.skip_str()?;
            Ok((String::new(), false))
        }
        m => {
            let mut s = String::new();
            for _ in 0..p.rng.below(4) {
                match d.next_char()? {
                    Some(c) => s.push(c),
                    None => return Ok((s, true)),
                }
            }
            if m == 3 {
                s.push_str(&d.flush_str()?);
                Ok((s, true))
            } else {
                d.skip_str()?;
                Ok((s, false))
            }
        }
    }
}

/// Visits the value on top of the stack.
pub fn visit<D: JsonDeserializer + ?Sized>(d: &mut D, p: &mut Policy) -> Result<Visit, D::Error> {
    let mut nodes: Vec<V> = Vec::new();
    let mut frames: Vec<Frame> = Vec::new();
    let mut count = 0;
    'value: loop {
        // there is a value on top of the stack; its number in `nodes` is nodes.len()
        let me = nodes.len();
        let skip = p.skip_at == Some(count) || (p.skip > 0 && p.rng.chance(p.skip));
        count += 1;
        if skip {
            d.skip_value()?;
            nodes.push(V::Skipped);
        } else if p.peek_null > 0 && p.rng.chance(p.peek_null) && d.check_null()? {
            nodes.push(V::Null);
        } else {
            match d.peek_value_type() {
                ValueType::Object => {
                    let strukt = p.strukt > 0 && p.rng.chance(p.strukt);
                    if strukt {
                        d.open_struct(None)?;
                    } else {
                        d.open_object()?;
                    }
                    let mut ops = Vec::new();
                    if p.aside > 0 && !p.absent.is_empty() && p.rng.chance(p.aside) {
                        let key = p.absent[p.rng.below(p.absent.len())].clone();
                        if d.try_push_entry(&key)? {
                            // not expected: the comparison reports it
                            ops.push(Op::ByKey(key, Some(me + 1)));
                            nodes.push(V::Obj(ops));
                            frames.push(Frame { node: me, object: true, strukt, tries: 0 });
                            continue 'value;
                        }
                        ops.push(Op::ByKey(key, None));
                    }
                    nodes.push(V::Obj(ops));
                    let tries = p.rng.below(5);
                    frames.push(Frame { node: me, object: true, strukt, tries });
                }
                ValueType::Array => {
                    d.open_list()?;
                    nodes.push(V::Arr(Vec::new()));
                    frames.push(Frame { node: me, object: false, strukt: false, tries: 0 });
                }
                ValueType::String => {
                    d.open_str()?;
                    let (s, all) = read_string(d, p)?;
                    nodes.push(V::Str(s, all));
                }
                ValueType::Number => nodes.push(V::Num(d.get_f64()?.to_bits())),
                ValueType::Bool => nodes.push(V::Bool(d.get_bool()?)),
                ValueType::Null => {
                    d.pop_null()?;
                    nodes.push(V::Null)
                }
            }
        }
        // go on in the innermost open container
        loop {
            let next = nodes.len();
            let Some(f) = frames.last_mut() else {
                return Ok(Visit { nodes, root: 0 });
            };
            if !f.object {
                if d.next_item()? {
                    match &mut nodes[f.node] {
                        V::Arr(v) => v.push(next),
                        _ => unreachable!(),
                    }
                    continue 'value;
                }
                frames.pop();
                continue;
            }
            let ops = match &mut nodes[f.node] {
                V::Obj(ops) => ops,
                _ => unreachable!(),
            };
            if f.strukt {
                if f.tries > 0 {
                    f.tries -= 1;
                    let name = *p.rng.pick(STATIC_NAMES);
                    d.push_field(name)?;
                    if d.check_null()? {
                        ops.push(Op::ByKey(name.to_string(), Some(next)));
                        nodes.push(V::Null);
                        continue;
                    }
                    ops.push(Op::ByKey(name.to_string(), Some(next)));
                    continue 'value;
                }
                d.close_struct()?;
                ops.push(Op::SkipRest);
                frames.pop();
                continue;
            }
            if f.node == 0 && !p.first.is_empty() {
                let key = p.first[0].clone();
                p.first = &p.first[1..];
                if d.try_push_entry(&key)? {
                    ops.push(Op::ByKey(key, Some(next)));
                    continue 'value;
                }
                ops.push(Op::ByKey(key, None));
                continue;
            }
            if f.tries > 0 && p.by_key > 0 && p.rng.chance(p.by_key) {
                f.tries -= 1;
                let key = if !p.keys.is_empty() && p.rng.chance(75) {
                    p.keys[p.rng.below(p.keys.len())].clone()
                } else if !p.absent.is_empty() {
                    p.absent[p.rng.below(p.absent.len())].clone()
                } else {
                    continue;
                };
                if d.try_push_entry(&key)? {
                    ops.push(Op::ByKey(key, Some(next)));
                    continue 'value;
                }
                ops.push(Op::ByKey(key, None));
                continue;
            }
            if p.skip_rest > 0 && p.rng.chance(p.skip_rest) {
                d.skip_object()?;
                ops.push(Op::SkipRest);
                frames.pop();
                continue;
            }
            if d.next_entry()? {
                let (k, all) = read_string(d, p)?;
                ops.push(Op::Iter(k, all, next));
                continue 'value;
            }
            ops.push(Op::End);
            frames.pop();
        }
    }
}

/// Compares what was delivered with what the specification says.
pub fn compare(doc: &Doc, v: &Visit) -> Option<String> {
    let mut todo = vec![(doc.root, v.root)];
    while let Some((n, m)) = todo.pop() {
        let node = &doc.nodes[n];
        match (&node.kind, &v.nodes[m]) {
            (_, V::Skipped) => {}
            (Kind::Str(s), V::Str(t, all)) => {
                if (*all && s != t) || (!*all && !s.starts_with(t.as_str())) {
                    return Some(format!("string at {}: expected {:?}, got {:?}", node.start, short(s), short(t)));
                }
            }
            (Kind::Num(s), V::Num(b)) => {
                let x = f64::from_bits(*b);
                if !number_close(s, x) {
                    return Some(format!("number at {}: {} read as {:?}", node.start, short(s), x));
                }
            }
            (Kind::Bool(a), V::Bool(b)) if a == b => {}
            (Kind::Null, V::Null) => {}
            (Kind::Arr(a), V::Arr(b)) => {
                if a.len() != b.len() {
                    return Some(format!("array at {}: {} items, {} delivered", node.start, a.len(), b.len()));
                }
                todo.extend(a.iter().copied().zip(b.iter().copied()));
            }
            (Kind::Obj(es), V::Obj(ops)) => {
                let mut left: Vec<(&str, usize)> = es.iter().map(|(k, i)| (k.as_str(), *i)).collect();
                left.reverse();
                for op in ops {
                    match op {
                        Op::ByKey(k, r) => {
                            let at = left.iter().rposition(|(l, _)| *l == k);
                            match (at, r) {
                                (None, None) => {}
                                (Some(i), Some(m)) => {
                                    let (_, n) = left.remove(i);
                                    todo.push((n, *m));
                                }
                                (None, Some(m)) if v.nodes[*m] == V::Null => {}
                                (Some(_), None) => {
                                    return Some(format!("object at {}: unread key {:?} not found", node.start, short(k)))
                                }
                                (None, Some(_)) => {
                                    return Some(format!("object at {}: absent key {:?} found", node.start, short(k)))
                                }
                            }
                        }
                        Op::Iter(k, all, m) => match left.pop() {
                            None => {
                                return Some(format!("object at {}: extra entry {:?} delivered", node.start, short(k)))
                            }
                            Some((l, n)) => {
                                if (*all && l != k) || (!*all && !l.starts_with(k.as_str())) {
                                    return Some(format!(
                                        "object at {}: key {:?} delivered as {:?}", node.start, short(l), short(k)
                                    ));
                                }
                                todo.push((n, *m));
                            }
                        },
                        Op::SkipRest => left.clear(),
                        Op::End => {
                            if !left.is_empty() {
                                return Some(format!(
                                    "object at {}: ended with {:?} unread", node.start, short(left[left.len() - 1].0)
                                ));
                            }
                        }
                    }
                }
            }
            (a, b) => {
                return Some(format!("value at {}: expected {}, got {:?}", node.start, kind_name(a), brief(b)));
            }
        }
    }
    None
}

pub fn short(s: &str) -> String {
    if s.chars().count() > 60 {
        let t: String = s.chars().take(60).collect();
        format!("{t}...({} bytes)", s.len())
    } else {
        s.to_string()
    }
}

fn brief(v: &V) -> String {
    match v {
        V::Skipped => "skipped".into(),
        V::Obj(_) => "object".into(),
        V::Arr(_) => "array".into(),
        V::Str(s, _) => format!("string {:?}", short(s)),
        V::Num(b) => format!("number {:?}", f64::from_bits(*b)),
        V::Bool(b) => format!("{b}"),
        V::Null => "null".into(),
    }
}

pub fn kind_name(k: &Kind) -> &'static str {
    match k {
        Kind::Obj(_) => "object",
        Kind::Arr(_) => "array",
        Kind::Str(_) => "string",
        Kind::Num(_) => "number",
        Kind::Bool(_) => "boolean",
        Kind::Null => "null",
    }
}

/// Plain integers of up to 15 digits are exactly representable; for other literals this only asks
/// for the right magnitude (exactness is decided by the Numbers specification).
fn number_close(lit: &str, x: f64) -> bool {
    let Ok(e) = lit.parse::<f64>() else { return false };
    let plain = lit.len() <= 15 && lit.bytes().all(|b| b == b'-' || b.is_ascii_digit());
    if plain {
        return e.to_bits() == x.to_bits();
    }
    if e == x {
        return true;
    }
    (e - x).abs() <= 1e-9 * e.abs().max(1e-300)
}

/// The outcome of reading a text.
#[derive(Debug, Clone, PartialEq)]
pub enum Out<P> {
    Ok(Visit),
    Err(Option<P>, String),
    Panic(String),
}

pub fn config(comments: bool) -> TextDeserializerConfig {
    if comments {
        TextDeserializerConfig::permissive()
    } else {
        TextDeserializerConfig::strict()
    }
}

/// Reads a text to its end and closes the reader.
pub fn read<R: TextReader, P>(
    reader: R,
    comments: bool,
    p: &mut Policy,
    pos: impl Fn(&R::Position) -> Option<P>,
) -> Out<P> {
    let r = catch(|| -> Result<Visit, DeserializeError<R::Position>> {
        let mut d = TextDeserializer::new(config(comments), reader)?;
        let v = visit(&mut d, p)?;
        d.close()?;
        Ok(v)
    });
    match r {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => {
            DISPLAYED.with(|d| {
                *d.borrow_mut() = [e.to_string(), e.message().to_string(), e.position().to_string()];
            });
            Out::Err(pos(e.position()), format!("{:?}", e.message()))
        }
        Err(m) => Out::Panic(m),
    }
}

thread_local! {
    /// How the last error is displayed: all of it, its message and its position.
    pub static DISPLAYED: std::cell::RefCell<[String; 3]> = Default::default();
}

/// The numbers in a text.
pub fn numbers_in(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|w| w.parse().ok()).collect()
}

/// The byte offset of a position in a text.
pub fn offset<'s>(text: &'s str, p: &StrPosition<'s>) -> Option<usize> {
    let (mut lo, mut hi) = (0usize, text.len());
    while lo < hi {
        let mut mid = (lo + hi) / 2;
        while !text.is_char_boundary(mid) {
            mid -= 1;
        }
        if mid < lo {
            mid = lo;
        }
        match (&text[mid..]).position().cmp(p) {
            std::cmp::Ordering::Less => {
                lo = mid + 1;
                while !text.is_char_boundary(lo) {
                    lo += 1;
                }
            }
            _ => {
                if mid == hi {
                    break;
                }
                hi = mid;
            }
        }
    }
    let s: &'s str = &text[lo..];
    (s.position() == *p).then_some(lo)
}

pub fn read_str<'s>(text: &'s str, comments: bool, p: &mut Policy) -> Out<usize> {
    read(text, comments, p, |q| offset(text, q))
}

/// A byte source that delivers its data in small random pieces, with interruptions.
pub struct Chunks<'a> {
    pub data: &'a [u8],
    pub rng: Rng,
    pub interrupt: usize,
    pub max: usize,
    pub fail_at: Option<usize>,
    pub pos: usize,
}

impl<'a> Chunks<'a> {
    pub fn new(data: &'a [u8], rng: Rng) -> Self {
        Chunks { data, rng, interrupt: 30, max: 3, fail_at: None, pos: 0 }
    }
}

impl std::io::Read for Chunks<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.interrupt > 0 && self.rng.chance(self.interrupt) {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "interrupted"));
        }
        if self.fail_at.is_some_and(|n| self.pos >= n) {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "source failed"));
        }
        let mut n = buf.len().min(self.data.len() - self.pos).min(self.rng.range(1, self.max));
        if let Some(f) = self.fail_at {
            n = n.min(f - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn read_utf8(text: &str, comments: bool, p: &mut Policy, rng: Rng) -> Out<(usize, usize)> {
    let r = catch(|| Utf8Reader::new(Chunks::new(text.as_bytes(), rng)));
    match r {
        Ok(Ok(r)) => read(r, comments, p, |q: &LineColumnPosition| Some((q.line, q.column))),
        Ok(Err(e)) => Out::Err(None, e.to_string()),
        Err(m) => Out::Panic(m),
    }
}

/// Keys that are not in a document but close to those that are.
pub fn absent_keys(keys: &[String], rng: &mut Rng) -> Vec<String> {
    let mut out = Vec::new();
    let sample: Vec<&String> = if keys.len() <= 6 {
        keys.iter().collect()
    } else {
        (0..6).map(|_| &keys[rng.below(keys.len())]).collect()
    };
    let mut base: Vec<String> = vec!["absent".into(), String::new(), "\u{0}".into()];
    for k in sample {
        base.extend(near(k));
    }
    let set: std::collections::HashSet<&str> = keys.iter().map(|s| s.as_str()).collect();
    for b in base {
        if !set.contains(b.as_str()) {
            out.push(b);
        }
    }
    if out.is_empty() {
        out.push(format!("absent{}", keys.len() + 1_000_000));
    }
    out
}

/// Strings that differ slightly from the given one.
pub fn near(k: &str) -> Vec<String> {
    let cs: Vec<char> = k.chars().collect();
    let mut out = vec![format!("{k}k"), format!("{k}\u{0}"), format!("{k}\""), format!("k{k}")];
    if !cs.is_empty() {
        out.push(cs[..cs.len() - 1].iter().collect());
        out.push(cs[1..].iter().collect());
        let change = |i: usize, f: &dyn Fn(u32) -> u32| {
            let mut c = cs.clone();
            c[i] = char::from_u32(f(c[i] as u32)).unwrap_or('?');
            c.iter().collect::<String>()
        };
        out.push(change(cs.len() - 1, &|c| c + 1));
        out.push(change(0, &|c| c + 1));
        out.push(change(cs.len() / 2, &|c| c ^ 1));
        out.push(change(cs.len() / 2, &|c| c ^ 0x40));
        out.push(change(cs.len() - 1, &|c| c ^ 0x20));
        out.push(change(0, &|c| c & 0xff));
    }
    out.retain(|x| x != k);
    out
}

/// Whether some object has two entries with the same key.
pub fn has_duplicates(doc: &Doc) -> bool {
    doc.nodes.iter().any(|n| match &n.kind {
        Kind::Obj(es) => {
            if es.len() < 2 {
                return false;
            }
            let mut ks: Vec<&str> = es.iter().map(|e| e.0.as_str()).collect();
            ks.sort_unstable();
            ks.windows(2).any(|w| w[0] == w[1])
        }
        _ => false,
    })
}
