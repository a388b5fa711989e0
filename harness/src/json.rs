//! A small JSON value and parser for the tables and vectors printed by TLC.
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(m) => m.get(k).unwrap_or_else(|| panic!("no key {k} in spec output")),
            _ => panic!("not an object: {self:?} (key {k})"),
        }
    }
    pub fn opt(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(m) => m.get(k),
            _ => None,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            // TLC prints the empty function/sequence in more than one way
            J::Obj(m) if m.is_empty() => &[],
            _ => panic!("not an array: {self:?}"),
        }
    }
    pub fn obj(&self) -> &BTreeMap<String, J> {
        match self {
            J::Obj(m) => m,
            _ => panic!("not an object: {self:?}"),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("not a string: {self:?}"),
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            _ => panic!("not an integer: {self:?}"),
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            J::Bool(b) => *b,
            _ => panic!("not a boolean: {self:?}"),
        }
    }
    pub fn parse(s: &str) -> J {
        let b = s.as_bytes();
        let mut p = 0;
        let v = value(b, &mut p);
        ws(b, &mut p);
        assert_eq!(p, b.len(), "trailing data in spec output");
        v
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && matches!(b[*p], b' ' | b'\n' | b'\t' | b'\r') {
        *p += 1;
    }
}

fn value(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'"' => J::Str(string(b, p)),
        b'[' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(b, p);
                if b[*p] == b']' {
                    *p += 1;
                    return J::Arr(v);
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                v.push(value(b, p));
            }
        }
        b'{' => {
            *p += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, p);
                if b[*p] == b'}' {
                    *p += 1;
                    return J::Obj(m);
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                let k = string(b, p);
                ws(b, p);
                assert_eq!(b[*p], b':');
                *p += 1;
                let v = value(b, p);
                m.insert(k, v);
            }
        }
        b't' => {
            *p += 4;
            J::Bool(true)
        }
        b'f' => {
            *p += 5;
            J::Bool(false)
        }
        b'n' => {
            *p += 4;
            J::Null
        }
        _ => {
            let s = *p;
            while *p < b.len() && matches!(b[*p], b'-' | b'0'..=b'9') {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[s..*p]).unwrap();
            J::Int(t.parse().unwrap_or_else(|_| panic!("bad number {t:?} in spec output")))
        }
    }
}

fn string(b: &[u8], p: &mut usize) -> String {
    assert_eq!(b[*p], b'"');
    *p += 1;
    let mut out = Vec::new();
    loop {
        match b[*p] {
            b'"' => {
                *p += 1;
                return String::from_utf8(out).unwrap();
            }
            b'\\' => {
                let c = b[*p + 1];
                *p += 2;
                match c {
                    b'n' => out.push(b'\n'),
                    b't' => out.push(b'\t'),
                    b'r' => out.push(b'\r'),
                    b'b' => out.push(8),
                    b'f' => out.push(12),
                    b'u' => {
                        let h = std::str::from_utf8(&b[*p..*p + 4]).unwrap();
                        *p += 4;
                        let c = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap();
                        out.extend(c.to_string().bytes());
                    }
                    c => out.push(c),
                }
            }
            c => {
                out.push(c);
                *p += 1;
            }
        }
    }
}

/// Escapes a string for the harness's own reports.
pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
