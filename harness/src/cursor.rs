//! Calls on the reader by name, as the Cursor specification names them.
use crate::json::{quote, J};
use crate::rng::Rng;
use serdere::{Deserializer, FixedNameMap, NameMap, Outliner, TextReader};
use serdere_json::{
    CollectionType, DeserializeError, DeserializeErrorMessage, JsonDeserializer, JsonOutliner, TextDeserializer,
    ValueType,
};
use std::collections::HashMap;
use std::sync::Mutex;

/// A node of a document.
#[derive(Debug, Clone)]
pub struct DocNode {
    pub k: String,
    pub c: Vec<usize>,
    pub key: Vec<u32>,
    pub v: Vec<u32>,
}

pub type Document = Vec<DocNode>;

/// The result of a call, or of the error that ended the session.
#[derive(Debug, Clone, PartialEq)]
pub struct Res {
    pub k: String,
    pub v: Vec<i64>,
}

impl Res {
    pub fn new(k: &str) -> Res {
        Res { k: k.to_string(), v: Vec::new() }
    }
    pub fn with(k: &str, v: Vec<i64>) -> Res {
        Res { k: k.to_string(), v }
    }
    pub fn fits(&self, spec: &Res) -> bool {
        spec.k == "any" || self == spec
    }
}

pub fn ints(j: &J) -> Vec<u32> {
    j.arr().iter().map(|x| x.int() as u32).collect()
}

/// Parses what TLC prints for a tuple of integers, strings and tuples.
pub fn tuple(s: &str) -> J {
    J::parse(&s.replace("<<", "[").replace(">>", "]"))
}

pub fn codes(s: &str) -> Vec<i64> {
    s.chars().map(|c| c as i64).collect()
}

pub fn string(v: &[u32]) -> String {
    v.iter().map(|c| char::from_u32(*c).unwrap()).collect()
}

/// A name that lives as long as the program.
pub fn leak(s: &str) -> &'static str {
    static NAMES: Mutex<Option<HashMap<String, &'static str>>> = Mutex::new(None);
    let mut m = NAMES.lock().unwrap();
    let m = m.get_or_insert_with(HashMap::new);
    if let Some(x) = m.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    m.insert(s.to_string(), l);
    l
}

/// What the text looks like around the document.
#[derive(Clone, Copy)]
pub struct Style {
    pub space: usize,
    pub comments: bool,
}

/// Writes the document as a text; gives the byte offset of every node.
pub fn render(doc: &Document, st: Style, r: &mut Rng) -> (String, Vec<usize>) {
    let (out, at, _) = render_deep(doc, st, &Deep::default(), r);
    (out, at)
}

/// Containers around every container within the document, which do not belong to it.
#[derive(Clone, Copy, Default, Debug)]
pub struct Deep {
    pub levels: usize,
    /// Whether what stands beside the inner container comes after it.
    pub after: bool,
}

/// The same, with deep containers; gives the offset of the outermost one and of the container itself.
pub fn render_deep(doc: &Document, st: Style, deep: &Deep, r: &mut Rng) -> (String, Vec<usize>, Vec<usize>) {
    let mut out = String::new();
    let mut at = vec![0; doc.len()];
    let mut inner = vec![0; doc.len()];
    let g = crate::gen::Gen { space: st.space, comments: if st.comments { 40 } else { 0 }, ..Default::default() };
    crate::gen::space(&g, r, &mut out);
    value(doc, 0, &g, r, &mut out, &mut at, deep, &mut inner);
    crate::gen::space(&g, r, &mut out);
    (out, at, inner)
}

#[allow(clippy::too_many_arguments)]
fn value(
    doc: &Document,
    i: usize,
    g: &crate::gen::Gen,
    r: &mut Rng,
    out: &mut String,
    at: &mut [usize],
    deep: &Deep,
    inner: &mut [usize],
) {
    use crate::gen::{quoted, space};
    at[i] = out.len();
    let n = &doc[i];
    let levels = if i > 0 && matches!(n.k.as_str(), "obj" | "arr") { deep.levels } else { 0 };
    for l in 0..levels {
        match (n.k.as_str(), deep.after) {
            ("obj", false) => out.push_str(&format!("{{\"a\":{l},\"\":")),
            ("obj", true) => out.push_str("{\"\":"),
            (_, false) => out.push_str(&format!("[{l},")),
            _ => out.push('['),
        }
    }
    inner[i] = out.len();
    match n.k.as_str() {
        "obj" | "arr" => {
            let obj = n.k == "obj";
            out.push(if obj { '{' } else { '[' });
            space(g, r, out);
            for (j, c) in n.c.iter().enumerate() {
                if j > 0 {
                    out.push(',');
                    space(g, r, out);
                }
                if obj {
                    quoted(&string(&doc[*c].key), r, out);
                    space(g, r, out);
                    out.push(':');
                    space(g, r, out);
                }
                value(doc, *c, g, r, out, at, deep, inner);
                space(g, r, out);
            }
            out.push(if obj { '}' } else { ']' });
        }
        "str" => quoted(&string(&n.v), r, out),
        "num" => out.push_str(&n.v[0].to_string()),
        "bool" => out.push_str(if n.v[0] == 1 { "true" } else { "false" }),
        "null" => out.push_str("null"),
        k => panic!("kind {k}"),
    }
    for l in (0..levels).rev() {
        match (n.k.as_str(), deep.after) {
            ("obj", true) => out.push_str(&format!(",\"a\":{l}}}")),
            ("obj", false) => out.push('}'),
            (_, true) => out.push_str(&format!(",{l}]")),
            _ => out.push(']'),
        }
    }
}

/// Goes through the containers around a container, up to the one that belongs to the document.
pub fn descend<R: TextReader>(
    d: &mut Option<TextDeserializer<R>>,
    obj: bool,
    deep: &Deep,
    r: &mut Rng,
) -> Result<(), DeserializeError<R::Position>> {
    let d = d.as_mut().unwrap();
    let told = |d: &TextDeserializer<R>, m: &str| Err(d.error(m.to_string().into()));
    for l in 0..deep.levels {
        if obj {
            d.open_object()?;
            if !deep.after && r.chance(20) {
                // what stands before is read now, and the way down is found by its key or by its place
                if !d.try_push_entry("a")? || d.get_u64()? != l as u64 {
                    return told(d, "the entry before has another value");
                }
                if r.chance(50) {
                    if !d.next_entry()? || !d.flush_str()?.is_empty() {
                        return told(d, "the key of the inner container is another");
                    }
                    continue;
                }
            }
            if !d.try_push_entry("")? {
                return told(d, "the inner container is not there");
            }
        } else {
            d.open_list()?;
            if !deep.after && (!d.next_item()? || d.get_u64()? != l as u64) {
                return told(d, "the item before has another value");
            }
            if !d.next_item()? {
                return told(d, "the inner container is not there");
            }
        }
    }
    Ok(())
}

/// Closes the containers around a container that has been closed.
pub fn ascend<R: TextReader>(
    d: &mut Option<TextDeserializer<R>>,
    obj: bool,
    deep: &Deep,
    r: &mut Rng,
) -> Result<(), DeserializeError<R::Position>> {
    let d = d.as_mut().unwrap();
    let told = |d: &TextDeserializer<R>, m: &str| Err(d.error(m.to_string().into()));
    for l in (0..deep.levels).rev() {
        if obj {
            if r.chance(70) {
                // what has been set aside, or follows (it may have been read on the way down)
                let there = d.try_push_entry("a")?;
                if there && d.get_u64()? != l as u64 {
                    return told(d, "the entry beside has another value");
                }
                if !there && deep.after {
                    return told(d, "the entry after is not there");
                }
                match r.below(2) {
                    0 => d.close_object()?,
                    _ => {
                        if d.next_entry()? {
                            return told(d, "there is an entry too many");
                        }
                    }
                }
            } else {
                d.skip_object()?;
            }
        } else {
            if deep.after && (!d.next_item()? || d.get_u64()? != l as u64) {
                return told(d, "the item after has another value");
            }
            if r.chance(50) {
                d.close_list()?;
            } else if d.next_item()? {
                return told(d, "there is an item too many");
            }
        }
    }
    Ok(())
}

pub fn type_name(t: ValueType) -> &'static str {
    match t {
        ValueType::String => "str",
        ValueType::Number => "num",
        ValueType::Object => "obj",
        ValueType::Array => "arr",
        ValueType::Bool => "bool",
        ValueType::Null => "null",
    }
}

/// An error as the specification describes it; `pos` gives the node starting at a position.
pub fn error<P>(e: &DeserializeError<P>, pos: &dyn Fn(&P) -> i64) -> Res {
    TOLD.with(|t| *t.borrow_mut() = Some(told(e)));
    let mut v = vec![pos(e.position())];
    use DeserializeErrorMessage::*;
    let k = match e.message() {
        MissingKey(k) => {
            v.extend(codes(k));
            "missing"
        }
        ExtraKey(k) => {
            v.extend(codes(k));
            "extra"
        }
        MissingItems => "few",
        ExcessItems => "many",
        _ => "err",
    };
    Res::with(k, v)
}

/// What an error says.
#[derive(Debug, Clone, Default)]
pub struct Told {
    pub kind: String,
    pub types: Vec<&'static str>,
    pub key: Vec<i64>,
    /// the names of types in the displayed text
    pub shown: Vec<&'static str>,
    /// the displayed text has the key
    pub named: bool,
    /// the names and numbers that a rejected choice names as allowed, or as given
    pub names: Vec<Vec<i64>>,
    pub index: i64,
}

thread_local! {
    /// What the last error said.
    pub static TOLD: std::cell::RefCell<Option<Told>> = Default::default();
}

fn told<P>(e: &DeserializeError<P>) -> Told {
    use DeserializeErrorMessage::*;
    let mut t = Told { index: -1, ..Told::default() };
    t.kind = format!("{:?}", e.message()).split('(').next().unwrap().to_string();
    let text = e.message().to_string();
    match e.message() {
        Expected(types) => {
            t.types = types.iter().map(|x| type_name(*x)).collect();
            t.shown = text
                .split(|c: char| !c.is_ascii_alphabetic())
                .filter_map(|w| match w {
                    "string" => Some("str"),
                    "number" => Some("num"),
                    "object" => Some("obj"),
                    "array" => Some("arr"),
                    "bool" | "boolean" => Some("bool"),
                    "null" => Some("null"),
                    _ => None,
                })
                .collect();
        }
        MissingKey(k) | ExtraKey(k) => {
            t.key = codes(k);
            t.named = names(&text, k);
        }
        Custom(c) => {
            if let Some(c) = c.downcast_ref::<serdere::deserialize::InvalidNameError>() {
                t.kind = "Name".into();
                t.names = TAG_NAMES.iter().filter(|n| names(&text, n)).map(|n| codes(n)).collect();
                let n = c.expected.size();
                if n != TAG_NAMES.len() {
                    t.names.truncate(0);
                }
            } else if let Some(c) = c.downcast_ref::<serdere::deserialize::InvalidIndexError>() {
                t.kind = "Index".into();
                t.index = c.index as i64;
                t.named = crate::visit::numbers_in(&text) == [c.index];
            }
        }
        _ => {}
    }
    t
}

/// Whether a text names something, as it is or quoted.
pub fn names(text: &str, name: &str) -> bool {
    text.contains(&format!("{name:?}")) || name.len() > 2 && text.contains(name)
}

fn array<T>(v: &[T], f: impl Fn(&T) -> String) -> String {
    format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(","))
}

impl Told {
    pub fn line(&self) -> String {
        format!(
            "{{\"kind\":{},\"types\":{},\"key\":{:?},\"shown\":{},\"named\":{},\"names\":{},\"index\":{}}}",
            quote(&self.kind),
            array(&self.types, |x| quote(x)),
            self.key,
            array(&self.shown, |x| quote(x)),
            self.named,
            array(&self.names, |x| format!("{x:?}")),
            self.index
        )
    }
}

/// Makes one call.  `d` is taken by the last one.
pub fn perform<R: TextReader>(
    d: &mut Option<TextDeserializer<R>>,
    a: &str,
    x: &str,
    pos: &dyn Fn(&R::Position) -> i64,
) -> Res {
    match call(d, a, x, pos) {
        Ok(r) => r,
        Err(e) => error(&e, pos),
    }
}

fn yes(b: bool) -> Res {
    Res::new(if b { "yes" } else { "no" })
}

fn call<R: TextReader>(
    slot: &mut Option<TextDeserializer<R>>,
    a: &str,
    x: &str,
    pos: &dyn Fn(&R::Position) -> i64,
) -> Result<Res, DeserializeError<R::Position>> {
    if a == "close" {
        slot.take().unwrap().close()?;
        return Ok(Res::new("ok"));
    }
    let d = slot.as_mut().unwrap();
    Ok(match a {
        "bool" => Res::with("bool", vec![d.get_bool()? as i64]),
        "num" => Res::with("num", vec![d.get_i64()?]),
        "null" => {
            d.pop_null()?;
            Res::new("null")
        }
        "str" => Res::with("str", codes(&d.read_str()?)),
        "char" => Res::with("char", vec![d.get_char()? as i64]),
        "tag" => Res::with("tag", vec![d.get_tag(MAX_TAG, TAGS)? as i64]),
        "obj" => {
            d.open_object()?;
            Res::new("ok")
        }
        "list" => {
            d.open_list()?;
            Res::new("ok")
        }
        "struct" => {
            d.open_struct(None)?;
            Res::new("ok")
        }
        "openstr" => {
            d.open_str()?;
            Res::new("ok")
        }
        "check" => yes(d.check_null()?),
        "skip" => {
            d.skip_value()?;
            Res::new("ok")
        }
        "ty" => Res::new(type_name(d.peek_value_type())),
        "next" => match d.next_char()? {
            Some(c) => Res::with("char", vec![c as i64]),
            None => Res::new("no"),
        },
        "flush" => Res::with("str", codes(&d.flush_str()?)),
        "skipstr" => {
            d.skip_str()?;
            Res::new("ok")
        }
        "closestr" => {
            d.close_str()?;
            Res::new("ok")
        }
        "entry" => yes(d.next_entry()?),
        "try" => yes(d.try_push_entry(x)?),
        "push" => {
            d.push_entry(x)?;
            Res::new("ok")
        }
        "field" => {
            d.push_field(leak(x))?;
            Res::new("ok")
        }
        "pushnull" => {
            d.push_null(None);
            Res::new("ok")
        }
        "closeobj" => {
            d.close_object()?;
            Res::new("ok")
        }
        "skipobj" => {
            d.skip_object()?;
            Res::new("ok")
        }
        "closestruct" => {
            d.close_struct()?;
            Res::new("ok")
        }
        "cty" => Res::new(match d.peek_collection_type() {
            CollectionType::Object => "obj",
            CollectionType::Array => "arr",
        }),
        "item" => yes(d.next_item()?),
        "pushitem" => {
            d.push_item()?;
            Res::new("ok")
        }
        "pushelement" => {
            d.push_element()?;
            Res::new("ok")
        }
        "tuple" => {
            d.open_tuple(None)?;
            Res::new("ok")
        }
        "closetuple" => {
            d.close_tuple()?;
            Res::new("ok")
        }
        "closelist" => {
            d.close_list()?;
            Res::new("ok")
        }
        "mark" => {
            let e = d.error("mark".into());
            Res::with("at", vec![pos(e.position())])
        }
        a => panic!("call {a}"),
    })
}

/// The names and the greatest index a tag may have, in the order of the specification.
#[rustfmt::skip]
pub const TAG_NAMES: &[&str] = &[
    "a", "ab", "\u{e9}", "", "null", "n01", "n02", "n03", "n04", "n05", "n06", "n07", "n08", "n09", "n10", "n11", "n12", "n13", "n14", "n15", "n16", "n17", "n18", "n19", "n20", "n21", "n22", "n23", "n24", "n25", "n26", "n27", "n28", "n29", "n30", "n31", "n32", "n33", "n34", "n35",
];
pub const MAX_TAG: usize = 1012;
#[rustfmt::skip]
pub const TAGS: &NameMap<usize> = FixedNameMap::new([
    ("a", 0), ("ab", 1), ("\u{e9}", 2), ("", 3), ("null", 4), ("n01", 5), ("n02", 6), ("n03", 7), ("n04", 8), ("n05", 9), ("n06", 10), ("n07", 11), ("n08", 12), ("n09", 13), ("n10", 14), ("n11", 15), ("n12", 16), ("n13", 17), ("n14", 18), ("n15", 19), ("n16", 20), ("n17", 21), ("n18", 22), ("n19", 23), ("n20", 24), ("n21", 25), ("n22", 26), ("n23", 27), ("n24", 28), ("n25", 29), ("n26", 30), ("n27", 31), ("n28", 32), ("n29", 33), ("n30", 34), ("n31", 35), ("n32", 36), ("n33", 37), ("n34", 38), ("n35", 39),
]).unfix();

#[derive(Debug, Clone)]
pub struct Event {
    pub a: &'static str,
    pub x: String,
    pub r: Res,
}

/// One session as a line for the trace specification.
pub fn session_line(doc: &Document, ev: &[Event], told: Option<&Told>) -> String {
    let mut s = String::from("{\"doc\":[");
    for (i, n) in doc.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&format!(
            "{{\"k\":\"{}\",\"c\":{:?},\"key\":{:?},\"v\":{:?}}}",
            n.k,
            n.c.iter().map(|x| x + 1).collect::<Vec<_>>(),
            n.key,
            n.v
        ));
    }
    s.push_str("],\"ev\":[");
    for (i, e) in ev.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let a = match e.a {
            "tuple" => "list",
            "pushelement" => "pushitem",
            "closetuple" => "closelist",
            a => a,
        };
        s.push_str(&format!(
            "{{\"a\":\"{}\",\"x\":{:?},\"k\":{},\"v\":{:?}}}",
            a,
            codes(&e.x),
            quote(&e.r.k),
            e.r.v
        ));
    }
    s.push(']');
    if let Some(t) = told {
        s.push_str(&format!(",\"msg\":{}", t.line()));
    }
    s.push('}');
    s
}
