//! Writer sessions: calls by the names of the Ser specification, made on the real serializer, and
//! the tokens and lines of the text it wrote.
use crate::cursor::leak;
use crate::gen;
use crate::json::J;
use crate::machine::{run, Kind, Table};
use crate::rng::Rng;
use serdere::{Outliner, Serializer, TextWriter};
use serdere_json::{JsonOutliner, JsonSerializer, TextSerializer};

#[derive(Debug, Clone, PartialEq)]
pub enum V {
    None,
    Bool(bool),
    /// type and value, as text
    Int(&'static str, String),
    F32(f32),
    F64(f64),
    Str(String),
}

impl V {
    /// A canonical text: equal for equal values.
    pub fn canon(&self) -> String {
        match self {
            V::None => String::new(),
            V::Bool(b) => (if *b { "1" } else { "0" }).to_string(),
            V::Int(_, s) => format!("i{s}"),
            V::F32(x) => format!("s{:x}", x.to_bits()),
            V::F64(x) => format!("d{:x}", x.to_bits()),
            V::Str(s) => s.clone(),
        }
    }
    /// The value the text of a number gives, read as this kind of number.
    pub fn reread(&self, text: &str) -> String {
        match self {
            V::Int(..) => text.parse::<i128>().map(|x| format!("i{x}")).unwrap_or(format!("?{text}")),
            V::F32(_) => text.parse::<f32>().map(|x| V::F32(x).canon()).unwrap_or(format!("?{text}")),
            V::F64(_) => text.parse::<f64>().map(|x| V::F64(x).canon()).unwrap_or(format!("?{text}")),
            _ => format!("?{text}"),
        }
    }
}

#[derive(Debug, Clone)]
pub struct Call {
    pub a: &'static str,
    pub v: V,
    /// which of the real calls is made
    pub flavor: u8,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Tok {
    pub s: &'static str,
    pub v: String,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Line {
    pub d: i64,
    pub t: Vec<Tok>,
}

pub fn num(r: &mut Rng) -> V {
    macro_rules! int {
        ($n:expr, $t:ty) => {{
            let x = match r.below(4) {
                0 => <$t>::MAX,
                1 => <$t>::MIN,
                2 => r.next() as $t,
                _ => r.below(120) as $t,
            };
            V::Int($n, x.to_string())
        }};
    }
    match r.below(12) {
        0 => int!("u8", u8),
        1 => int!("u16", u16),
        2 => int!("u32", u32),
        3 => int!("u64", u64),
        4 => int!("i8", i8),
        5 => int!("i16", i16),
        6 => int!("i32", i32),
        7 => int!("i64", i64),
        8 => V::Int("tag", tag_index(r).to_string()),
        9 => loop {
            let x = f32::from_bits(r.next() as u32);
            if x.is_finite() {
                break V::F32(x);
            }
        },
        10 => loop {
            let x = f64::from_bits(r.next());
            if x.is_finite() {
                break V::F64(x);
            }
        },
        _ => V::F64(*r.pick(&[0.0, -0.0, 1.0, -1.5, 1e21, 1e-7, 123456789.0, f64::MAX, f64::MIN_POSITIVE, 5e-324, 0.1])),
    }
}

/// The index of a tag: small, or around the borders of the integer types.
fn tag_index(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => r.below(1000),
        1 => (1usize << *r.pick(&[7, 8, 15, 16, 31, 32, 53, 63])).wrapping_add(r.below(3)).wrapping_sub(1),
        2 => usize::MAX - r.below(2),
        _ => (r.next() >> r.below(64)) as usize,
    }
}

pub fn string(r: &mut Rng) -> String {
    let n = match r.below(12) {
        0 => 0,
        1..=5 => 1,
        6..=10 => r.range(2, 6),
        _ => r.range(7, 40),
    };
    (0..n).map(|_| gen::any_char(r)).collect()
}

fn put<W: TextWriter>(s: &mut TextSerializer<W>, v: &V, flavor: u8) -> Result<(), W::Error> {
    macro_rules! int {
        ($put:ident, $x:expr) => {
            s.$put($x.parse().unwrap())
        };
    }
    match v {
        V::Int(t, x) => match *t {
            "u8" => int!(put_u8, x),
            "u16" => int!(put_u16, x),
            "u32" => int!(put_u32, x),
            "u64" => int!(put_u64, x),
            "i8" => int!(put_i8, x),
            "i16" => int!(put_i16, x),
            "i32" => int!(put_i32, x),
            "i64" => int!(put_i64, x),
            _ => {
                let i: usize = x.parse().unwrap();
                s.put_tag(i.saturating_add(flavor as usize), i, None)
            }
        },
        V::F32(x) => s.put_f32(*x),
        V::F64(x) => s.put_f64(*x),
        V::Bool(b) => s.put_bool(*b),
        V::None => s.pop_null(),
        V::Str(x) => {
            let one = x.chars().count() == 1;
            match flavor % 3 {
                1 if one => s.put_char(x.chars().next().unwrap()),
                2 => s.put_tag(3, 1, Some(leak(x))),
                _ => s.put_str(x),
            }
        }
    }
}

/// Makes a call.
pub fn perform<W: TextWriter>(
    s: &mut TextSerializer<W>,
    calls: &[Call],
    i: usize,
    open: &mut Vec<u8>,
) -> Result<(), W::Error> {
    let c = &calls[i];
    let f = c.flavor;
    match c.a {
        "num" | "bool" | "null" | "str" => put(s, &c.v, f),
        "openstr" => s.open_str(),
        "append" => {
            let V::Str(x) = &c.v else { panic!() };
            if f % 2 == 0 {
                s.append_str(x)
            } else {
                x.chars().try_for_each(|c| s.append_char(c))
            }
        }
        "closestr" => s.close_str(),
        "obj" => {
            // a struct cannot have an entry whose key is written in parts
            let f = if members(calls, i).1 { 0 } else { f % 3 };
            open.push(f);
            match f {
                0 => s.open_object(),
                1 => s.open_struct(None),
                _ => s.open_struct(Some("Some name")),
            }
        }
        "arr" => {
            let f = 10 + f % 4;
            open.push(f);
            match f {
                10 => s.open_list_streaming(),
                11 => s.open_list_sized(members(calls, i).0),
                12 => s.open_tuple(None),
                _ => s.open_tuple(Some("Some name")),
            }
        }
        "entry" => {
            let V::Str(k) = &c.v else { panic!() };
            if *open.last().unwrap() == 0 {
                s.push_entry(k)
            } else {
                s.push_field(leak(k))
            }
        }
        "addentry" => s.add_entry(),
        "item" => {
            if *open.last().unwrap() < 12 {
                s.push_item()
            } else {
                s.push_element()
            }
        }
        "close" => match open.pop().unwrap() {
            0 => s.close_object(),
            1 | 2 => s.close_struct(),
            10 | 11 => s.close_list(),
            _ => s.close_tuple(),
        },
        a => panic!("call {a}"),
    }
}

/// The number of members of the container opened by a call, and whether a key is written in parts.
fn members(calls: &[Call], i: usize) -> (usize, bool) {
    let (mut depth, mut n, mut parts) = (0, 0, false);
    for c in &calls[i..] {
        match c.a {
            "obj" | "arr" => depth += 1,
            "close" => {
                depth -= 1;
                if depth == 0 {
                    break;
                }
            }
            "entry" | "item" | "addentry" if depth == 1 => {
                n += 1;
                parts |= c.a == "addentry";
            }
            _ => {}
        }
    }
    (n, parts)
}

/// Fills in concrete values.
pub fn concrete(a: &'static str, r: &mut Rng, bool_value: bool) -> V {
    match a {
        "num" => num(r),
        "bool" => V::Bool(bool_value),
        "str" | "append" | "entry" => V::Str(string(r)),
        _ => V::None,
    }
}

pub struct Vector {
    pub calls: Vec<(&'static str, Vec<i64>)>,
    pub lines: Vec<(i64, Vec<(&'static str, Vec<i64>)>)>,
}

impl Vector {
    pub fn load(j: &J) -> Vector {
        let pair = |j: &J, k: &str| {
            let s = leak(j.get(k).str());
            let v = j.get("v").arr().iter().map(|x| x.int()).collect::<Vec<i64>>();
            (s, v)
        };
        Vector {
            calls: j.get("calls").arr().iter().map(|c| pair(c, "a")).collect(),
            lines: j
                .get("lines")
                .arr()
                .iter()
                .map(|l| (l.get("d").int(), l.get("t").arr().iter().map(|t| pair(t, "s")).collect()))
                .collect(),
        }
    }
    /// Concrete calls, and the lines they owe with concrete values.
    pub fn instance(&self, r: &mut Rng) -> (Vec<Call>, Vec<Line>) {
        let calls: Vec<Call> = self
            .calls
            .iter()
            .map(|(a, v)| Call { a, v: concrete(a, r, v.first() == Some(&1)), flavor: r.below(16) as u8 })
            .collect();
        let lines = self
            .lines
            .iter()
            .map(|(d, t)| Line {
                d: *d,
                t: t.iter()
                    .map(|(s, v)| Tok {
                        s,
                        v: match *s {
                            "num" => calls[v[0] as usize].v.canon(),
                            "bool" => v[0].to_string(),
                            "str" | "key" => v.iter().map(|p| calls[*p as usize - 97].v.canon()).collect(),
                            _ => String::new(),
                        },
                    })
                    .collect(),
            })
            .collect();
        (calls, lines)
    }
}

/// The tokens of the text; `indent` is what a level is indented by.  The text must be one that
/// the specification of JSON accepts.
pub fn lines(t: &Table, text: &str, indent: Option<&str>, calls: &[Call]) -> Result<Vec<Line>, String> {
    let doc = run(t, text, false);
    if let Some(o) = doc.error {
        return Err(format!("not well-formed JSON at byte {o}"));
    }
    let nums: Vec<&V> = calls.iter().filter(|c| c.a == "num").map(|c| &c.v).collect();
    let (mut node, mut key, mut num) = (0, 0, 0);
    let mut out = Vec::new();
    let mut cur = Line { d: 0, t: Vec::new() };
    let b = text.as_bytes();
    let mut i = 0;
    let sym = |c: u8| match c {
        b'[' => "[",
        b']' => "]",
        b'{' => "{",
        b'}' => "}",
        _ => ",",
    };
    while i < b.len() {
        match b[i] {
            b'\n' => {
                out.push(std::mem::replace(&mut cur, Line { d: 0, t: Vec::new() }));
                i += 1;
                let mut n = 0;
                if let Some(ind) = indent {
                    while !ind.is_empty() && text[i..].starts_with(ind) {
                        i += ind.len();
                        n += 1;
                    }
                }
                cur.d = n;
                if i < b.len() && matches!(b[i], b' ' | b'\t' | b'\r') {
                    return Err(format!("line {} is indented by a part of the indent", out.len() + 1));
                }
            }
            b'\r' => return Err("a carriage return outside of strings".into()),
            b' ' | b'\t' | b':' => i += 1,
            b'{' | b'[' => {
                cur.t.push(Tok { s: sym(b[i]), v: String::new() });
                node += 1;
                i += 1;
            }
            b']' | b'}' | b',' => {
                cur.t.push(Tok { s: sym(b[i]), v: String::new() });
                i += 1;
            }
            _ => {
                // a key stands where no node starts
                if node < doc.nodes.len() && doc.nodes[node].start == i {
                    let n = &doc.nodes[node];
                    node += 1;
                    let (s, v) = match &n.kind {
                        Kind::Str(s) => ("str", s.clone()),
                        Kind::Num(s) => {
                            num += 1;
                            ("num", nums.get(num - 1).map(|x| x.reread(s)).unwrap_or(format!("?{s}")))
                        }
                        Kind::Bool(b) => ("bool", V::Bool(*b).canon()),
                        _ => ("null", String::new()),
                    };
                    cur.t.push(Tok { s, v });
                    i = n.end;
                } else {
                    cur.t.push(Tok { s: "key", v: doc.keys[key].clone() });
                    key += 1;
                    i += 1;
                    while b[i] != b'"' {
                        i += if b[i] == b'\\' { 2 } else { 1 };
                    }
                    i += 1;
                }
            }
        }
    }
    out.push(cur);
    Ok(out)
}

pub fn show(calls: &[Call]) -> String {
    calls
        .iter()
        .map(|c| if c.v == V::None { c.a.to_string() } else { format!("{}({:?})", c.a, c.v) })
        .collect::<Vec<_>>()
        .join(" ")
}

/// A random session.
pub fn random_calls(r: &mut Rng, size: usize) -> Vec<Call> {
    let mut calls: Vec<Call> = Vec::new();
    let mut left = size;
    let mut open: Vec<bool> = Vec::new();
    let go = |a: &'static str, r: &mut Rng, calls: &mut Vec<Call>| {
        let b = r.chance(50);
        let v = concrete(a, r, b);
        calls.push(Call { a, v, flavor: r.below(16) as u8 });
    };
    loop {
        // a value is due
        let deep = open.len() > 40;
        let a = match r.below(10) {
            0..=2 if !deep && (left > 0 || calls.is_empty()) => "obj",
            3..=5 if !deep && (left > 0 || calls.is_empty()) => "arr",
            6 => *r.pick(&["bool", "null"]),
            7 => "openstr",
            8 => "str",
            _ => "num",
        };
        go(a, r, &mut calls);
        match a {
            "obj" => open.push(true),
            "arr" => open.push(false),
            "openstr" => {
                for _ in 0..r.below(4) {
                    go("append", r, &mut calls);
                }
                go("closestr", r, &mut calls);
            }
            _ => {}
        }
        // members or ends
        loop {
            let Some(obj) = open.last().copied() else { return calls };
            if left > 0 && r.chance(80) {
                left -= 1;
                if !obj {
                    go("item", r, &mut calls);
                } else if r.chance(70) {
                    go("entry", r, &mut calls);
                } else {
                    go("addentry", r, &mut calls);
                    for _ in 0..r.below(4) {
                        go("append", r, &mut calls);
                    }
                    go("closestr", r, &mut calls);
                }
                break;
            }
            open.pop();
            go("close", r, &mut calls);
        }
    }
}

/// A session within containers within containers.
pub fn deep_calls(r: &mut Rng) -> Vec<Call> {
    let levels = *r.pick(&[31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300]);
    let mut calls = Vec::new();
    let mut go = |a: &'static str, r: &mut Rng| {
        let v = concrete(a, r, true);
        calls.push(Call { a, v, flavor: r.below(16) as u8 });
    };
    let mut open = Vec::new();
    let beside = if r.chance(50) { 0 } else { 10 };
    for _ in 0..levels {
        let obj = r.chance(50);
        open.push(obj);
        go(if obj { "obj" } else { "arr" }, r);
        if r.chance(beside) {
            go(if obj { "entry" } else { "item" }, r);
            go("null", r);
        }
        go(if obj { "entry" } else { "item" }, r);
    }
    let size = r.below(4);
    let inner = random_calls(r, size);
    let mut after = Vec::new();
    let mut go = |a: &'static str, r: &mut Rng| {
        let v = concrete(a, r, true);
        after.push(Call { a, v, flavor: r.below(16) as u8 });
    };
    for obj in open.iter().rev() {
        if r.chance(beside) {
            go(if *obj { "entry" } else { "item" }, r);
            go("num", r);
        }
        go("close", r);
    }
    calls.extend(inner);
    calls.extend(after);
    calls
}

/// Writes the value that starts with call `i` through the helper wrappers.
pub fn wrapped<W: TextWriter>(
    value: serdere::Value<TextSerializer<W>>,
    calls: &[Call],
    i: &mut usize,
) -> Result<(), W::Error> {
    use serdere_json::{ValueExt, ValueSerialierExt};
    let at = *i;
    let c = &calls[at];
    let f = c.flavor;
    *i += 1;
    macro_rules! int {
        ($t:ty, $put:ident, $x:expr) => {
            if f % 2 == 0 { value.$put($x.parse().unwrap()) } else { value.put::<$t>(&$x.parse().unwrap()) }
        };
    }
    match c.a {
        "num" => match &c.v {
            V::Int(t, x) => match *t {
                "u8" => int!(u8, put_u8, x),
                "u16" => int!(u16, put_u16, x),
                "u32" => int!(u32, put_u32, x),
                "u64" => int!(u64, put_u64, x),
                "i8" => int!(i8, put_i8, x),
                "i16" => int!(i16, put_i16, x),
                "i32" => int!(i32, put_i32, x),
                "i64" => int!(i64, put_i64, x),
                _ => {
                    let n: usize = x.parse().unwrap();
                    value.put_tag(n.saturating_add(f as usize), n, None)
                }
            },
            V::F32(x) => if f % 2 == 0 { value.put_f32(*x) } else { value.put(x) },
            V::F64(x) => if f % 2 == 0 { value.put_f64(*x) } else { value.put(x) },
            v => panic!("{v:?}"),
        },
        "bool" => value.put_bool(c.v == V::Bool(true)),
        "null" => value.into_null(),
        "str" => {
            let V::Str(x) = &c.v else { panic!() };
            match f % 3 {
                1 if x.chars().count() == 1 => value.put_char(x.chars().next().unwrap()),
                2 => value.put(x),
                _ => value.put_str(x),
            }
        }
        "openstr" => {
            let (s, done) = value.into_raw();
            s.open_str()?;
            loop {
                let c = &calls[*i];
                *i += 1;
                match &c.v {
                    V::Str(x) => s.append_str(x)?,
                    _ => break,
                }
            }
            s.close_str()?;
            *done = true;
            Ok(())
        }
        "obj" => {
            let mut key = |i: &mut usize| -> Option<String> {
                let c = &calls[*i];
                *i += 1;
                match c.a {
                    "close" => None,
                    "entry" => Some(c.v.canon()),
                    _ => {
                        let mut k = String::new();
                        while let V::Str(x) = &calls[*i].v {
                            k += x;
                            *i += 1;
                        }
                        *i += 1;
                        Some(k)
                    }
                }
            };
            if f % 2 == 0 {
                let mut o = value.into_object()?;
                while let Some(k) = key(i) {
                    wrapped(o.entry(&k)?, calls, i)?;
                }
                o.close()
            } else {
                let mut o = value.into_struct(None)?;
                while let Some(k) = key(i) {
                    wrapped(o.field(leak(&k))?, calls, i)?;
                }
                o.close()
            }
        }
        "arr" => {
            let n = members(calls, at).0;
            if f % 3 == 2 {
                let mut t = value.into_tuple(None)?;
                for _ in 0..n {
                    *i += 1;
                    wrapped(t.element()?, calls, i)?;
                }
                *i += 1;
                return t.close();
            }
            let mut l = if f % 3 == 0 { value.into_list_streaming()? } else { value.into_list_sized(n)? };
            for _ in 0..n {
                *i += 1;
                wrapped(l.push()?, calls, i)?;
            }
            *i += 1;
            l.close()
        }
        a => panic!("call {a}"),
    }
}
