//! JSON documents as the specification sees them.
use crate::abs::{place, text};
use harness::json::{quote, J};
use harness::rng::Rng;

#[derive(Clone, PartialEq, Debug)]
pub enum Doc {
    Num(String),
    Str(String),
    Lit(String),
    Arr(Vec<Doc>),
    Obj(Vec<(String, Doc)>),
}
use Doc::*;

impl Doc {
    pub fn load(j: &J) -> Doc {
        match j.get("k").str() {
            "num" => Num(j.get("t").str().into()),
            "str" => Str(text(j.get("t").str())),
            "lit" => Lit(j.get("t").str().into()),
            "arr" => Arr(j.get("xs").arr().iter().map(Doc::load).collect()),
            "obj" => Obj(j.get("es").arr().iter().map(|e| (text(e.arr()[0].str()), Doc::load(&e.arr()[1]))).collect()),
            k => panic!("document kind {k}"),
        }
    }
    pub fn show(&self) -> String {
        let leaf = |k: &str, t: &str| format!("{{\"k\":\"{k}\",\"t\":{}}}", quote(t));
        match self {
            Num(t) => leaf("num", t),
            Str(t) => leaf("str", &place(t)),
            Lit(t) => leaf("lit", t),
            Arr(v) => {
                format!("{{\"k\":\"arr\",\"xs\":[{}]}}", v.iter().map(Doc::show).collect::<Vec<_>>().join(","))
            }
            Obj(v) => format!(
                "{{\"k\":\"obj\",\"es\":[{}]}}",
                v.iter().map(|(k, d)| format!("[{},{}]", quote(&place(k)), d.show())).collect::<Vec<_>>().join(",")
            ),
        }
    }
    /// As text, without or with a random choice of whitespace and escapes.
    pub fn render(&self, rng: Option<&mut Rng>) -> String {
        let mut out = String::new();
        match rng {
            None => self.write(&mut out, &mut None),
            Some(r) => {
                let mut r = Some(r);
                space(&mut out, &mut r);
                self.write(&mut out, &mut r);
                space(&mut out, &mut r);
            }
        }
        out
    }
    fn write(&self, out: &mut String, rng: &mut Option<&mut Rng>) {
        match self {
            Num(t) | Lit(t) => out.push_str(t),
            Str(t) => string(t, out, rng),
            Arr(v) => {
                out.push('[');
                for (i, d) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    space(out, rng);
                    d.write(out, rng);
                    space(out, rng);
                }
                out.push(']');
            }
            Obj(v) => {
                out.push('{');
                for (i, (k, d)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    space(out, rng);
                    string(k, out, rng);
                    space(out, rng);
                    out.push(':');
                    space(out, rng);
                    d.write(out, rng);
                    space(out, rng);
                }
                out.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Option<Doc> {
        let c: Vec<char> = s.chars().collect();
        let mut p = 0;
        let d = parse(&c, &mut p)?;
        ws(&c, &mut p);
        (p == c.len()).then_some(d)
    }
    pub fn any(&self, f: &mut impl FnMut(&Doc) -> bool) -> bool {
        f(self)
            || match self {
                Arr(v) => v.iter().any(|d| d.any(f)),
                Obj(v) => v.iter().any(|(_, d)| d.any(f)),
                _ => false,
            }
    }
    pub fn size(&self) -> usize {
        match self {
            Arr(v) => 1 + v.iter().map(Doc::size).sum::<usize>(),
            Obj(v) => 1 + v.iter().map(|e| e.1.size()).sum::<usize>(),
            _ => 1,
        }
    }
    /// The part with the given number, in preorder.
    pub fn part(&mut self, n: &mut usize) -> Option<&mut Doc> {
        if *n == 0 {
            return Some(self);
        }
        *n -= 1;
        match self {
            Arr(v) => v.iter_mut().find_map(|d| d.part(n)),
            Obj(v) => v.iter_mut().find_map(|e| e.1.part(n)),
            _ => None,
        }
    }
}

fn space(out: &mut String, rng: &mut Option<&mut Rng>) {
    if let Some(r) = rng {
        while r.chance(20) {
            out.push(*r.pick(&[' ', '\n', '\t', '\r']));
        }
    }
}

fn string(t: &str, out: &mut String, rng: &mut Option<&mut Rng>) {
    out.push('"');
    for c in t.chars() {
        let escape = match rng {
            Some(r) => r.chance(15),
            None => false,
        };
        if escape || (c as u32) < 32 {
            let mut b = [0; 2];
            for u in c.encode_utf16(&mut b) {
                out.push_str(&format!("\\u{u:04x}"));
            }
        } else if c == '"' || c == '\\' {
            out.push('\\');
            out.push(c);
        } else {
            out.push(c);
        }
    }
    out.push('"');
}

fn ws(c: &[char], p: &mut usize) {
    while *p < c.len() && matches!(c[*p], ' ' | '\n' | '\t' | '\r') {
        *p += 1;
    }
}

fn parse(c: &[char], p: &mut usize) -> Option<Doc> {
    ws(c, p);
    match *c.get(*p)? {
        '"' => parse_str(c, p).map(Str),
        '[' => {
            *p += 1;
            let mut v = vec![];
            ws(c, p);
            if c.get(*p) == Some(&']') {
                *p += 1;
                return Some(Arr(v));
            }
            loop {
                v.push(parse(c, p)?);
                ws(c, p);
                *p += 1;
                match c.get(*p - 1)? {
                    ',' => {}
                    ']' => return Some(Arr(v)),
                    _ => return None,
                }
            }
        }
        '{' => {
            *p += 1;
            let mut v = vec![];
            ws(c, p);
            if c.get(*p) == Some(&'}') {
                *p += 1;
                return Some(Obj(v));
            }
            loop {
                ws(c, p);
                let k = parse_str(c, p)?;
                ws(c, p);
                if c.get(*p) != Some(&':') {
                    return None;
                }
                *p += 1;
                v.push((k, parse(c, p)?));
                ws(c, p);
                *p += 1;
                match c.get(*p - 1)? {
                    ',' => {}
                    '}' => return Some(Obj(v)),
                    _ => return None,
                }
            }
        }
        _ => {
            let s = *p;
            while *p < c.len() && (c[*p].is_ascii_alphanumeric() || matches!(c[*p], '-' | '+' | '.')) {
                *p += 1;
            }
            let t: String = c[s..*p].iter().collect();
            match t.as_str() {
                "" => None,
                "true" | "false" | "null" => Some(Lit(t)),
                _ => Some(Num(t)),
            }
        }
    }
}

fn parse_str(c: &[char], p: &mut usize) -> Option<String> {
    if c.get(*p) != Some(&'"') {
        return None;
    }
    *p += 1;
    let mut u = Vec::new();
    loop {
        let x = *c.get(*p)?;
        *p += 1;
        match x {
            '"' => return String::from_utf16(&u).ok(),
            '\\' => {
                let e = *c.get(*p)?;
                *p += 1;
                let o = match e {
                    'n' => '\n',
                    't' => '\t',
                    'r' => '\r',
                    'b' => '\u{8}',
                    'f' => '\u{c}',
                    'u' => {
                        let h: String = c.get(*p..*p + 4)?.iter().collect();
                        *p += 4;
                        u.push(u16::from_str_radix(&h, 16).ok()?);
                        continue;
                    }
                    '"' | '\\' | '/' => e,
                    _ => return None,
                };
                u.extend(o.encode_utf16(&mut [0; 2]).iter());
            }
            x => u.extend(x.encode_utf16(&mut [0; 2]).iter()),
        }
    }
}
