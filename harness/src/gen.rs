//! Random JSON texts.  What they denote is decided by the specification, not here.
use crate::machine::{Table, OTHERS};
use crate::rng::Rng;

#[derive(Clone, Copy)]
pub struct Gen {
    /// about how many values
    pub size: usize,
    pub depth: usize,
    /// percentage of comments among whitespace, if any
    pub comments: usize,
    /// percentage of places with whitespace
    pub space: usize,
    /// keys distinct within each object
    pub distinct: bool,
    /// percentage of long strings and keys
    pub long: usize,
    /// only containers at the outermost level
    pub container: bool,
}

impl Default for Gen {
    fn default() -> Self {
        Gen { size: 12, depth: 6, comments: 0, space: 25, distinct: true, long: 0, container: false }
    }
}

pub fn space(g: &Gen, r: &mut Rng, out: &mut String) {
    if !r.chance(g.space) {
        return;
    }
    for _ in 0..r.range(1, 3) {
        if g.comments > 0 && r.chance(g.comments) {
            comment(r, out);
        } else {
            out.push(*r.pick(&[' ', ' ', '\n', '\t', '\r']));
        }
    }
}

pub fn comment(r: &mut Rng, out: &mut String) {
    const BODY: &[&str] = &["*", "/", "**", "//", "\"", "\\", "x", "é", " ", "/*", "{", "}", "[", "]", ",", ":", "1", "\t", "\u{1}", "😀"];
    if r.chance(50) {
        out.push_str("//");
        for _ in 0..r.below(6) {
            out.push_str(r.pick(BODY));
        }
        if r.chance(20) {
            out.push('\r');
        }
        out.push('\n');
    } else {
        out.push_str("/*");
        let mut b = String::new();
        for _ in 0..r.below(6) {
            b.push_str(r.pick(BODY));
            if r.chance(20) {
                b.push('\n');
            }
        }
        while b.contains("*/") {
            b = b.replace("*/", "* /");
        }
        out.push_str(&b);
        out.push_str("*/");
    }
}

/// The spelling of one character inside a string.
pub fn spell(c: char, r: &mut Rng, out: &mut String) {
    let must = matches!(c, '"' | '\\') || (c as u32) < 32;
    let short = match c {
        '"' => Some('"'),
        '\\' => Some('\\'),
        '/' => Some('/'),
        '\u{8}' => Some('b'),
        '\u{c}' => Some('f'),
        '\n' => Some('n'),
        '\r' => Some('r'),
        '\t' => Some('t'),
        _ => None,
    };
    if !must && !r.chance(12) {
        out.push(c);
        return;
    }
    if let (Some(s), true) = (short, r.chance(60)) {
        out.push('\\');
        out.push(s);
        return;
    }
    let mut b = [0; 2];
    for u in c.encode_utf16(&mut b) {
        let h = if r.chance(50) { format!("{:04x}", u) } else { format!("{:04X}", u) };
        let h: String = h
            .chars()
            .map(|c| if r.chance(50) { c.to_ascii_uppercase() } else { c })
            .collect();
        out.push_str("\\u");
        out.push_str(&h);
    }
}

pub fn any_char(r: &mut Rng) -> char {
    match r.below(20) {
        0..=7 => (b'a' + r.below(4) as u8) as char,
        8..=10 => char::from_u32(32 + r.below(95) as u32).unwrap(),
        11 => char::from_u32(r.below(32) as u32).unwrap(),
        12..=13 => *r.pick(&['"', '\\', '/', 'u', 'n', '*', '{', '[', ':', ',']),
        14..=17 => *r.pick(OTHERS),
        _ => loop {
            if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                break c;
            }
        },
    }
}

pub fn chars(g: &Gen, r: &mut Rng) -> String {
    let n = if g.long > 0 && r.chance(g.long) {
        r.range(300, 80_000)
    } else {
        match r.below(10) {
            0 => 0,
            1..=6 => r.range(1, 3),
            7 | 8 => r.range(3, 12),
            _ => r.range(12, 60),
        }
    };
    let mut s = String::new();
    if n > 300 {
        // mostly plain, so that spelling it stays cheap
        while s.len() < n {
            for _ in 0..50 {
                s.push((b'a' + r.below(26) as u8) as char);
            }
            s.push(any_char(r));
        }
    } else {
        for _ in 0..n {
            s.push(any_char(r));
        }
    }
    s
}

/// What several keys or names start with; long ones have lengths around powers of two.
pub fn stem(r: &mut Rng) -> String {
    let n = match r.below(8) {
        0..=3 => r.range(6, 40),
        4 | 5 => (1 << r.range(4, 8)) - r.below(4),
        6 => r.range(40, 150),
        _ => r.range(250, 330),
    };
    let pure = r.chance(50);
    let mut s = String::new();
    for i in 0..n {
        s.push(if pure || r.chance(90) { (b'a' + (i % 26) as u8) as char } else { any_char(r) });
    }
    s
}

pub fn quoted(s: &str, r: &mut Rng, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        spell(c, r, out);
    }
    out.push('"');
}

pub fn number(r: &mut Rng, out: &mut String) {
    if r.chance(35) {
        out.push('-');
    }
    let digits = |r: &mut Rng, out: &mut String| {
        let n = if r.chance(6) { r.range(20, 120) } else { r.range(1, 6) };
        for _ in 0..n {
            out.push((b'0' + r.below(10) as u8) as char);
        }
    };
    if r.chance(25) {
        out.push('0');
    } else {
        out.push((b'1' + r.below(9) as u8) as char);
        if r.chance(70) {
            digits(r, out);
        }
    }
    if r.chance(30) {
        out.push('.');
        digits(r, out);
    }
    if r.chance(30) {
        out.push(*r.pick(&['e', 'E']));
        match r.below(3) {
            0 => out.push('-'),
            1 => out.push('+'),
            _ => {}
        }
        for _ in 0..r.range(1, 3) {
            out.push((b'0' + r.below(10) as u8) as char);
        }
    }
}

fn scalar(g: &Gen, r: &mut Rng, out: &mut String) {
    match r.below(8) {
        0 | 1 => {
            let s = chars(g, r);
            quoted(&s, r, out);
        }
        2..=4 => number(r, out),
        5 => out.push_str("true"),
        6 => out.push_str("false"),
        _ => out.push_str("null"),
    }
}

fn value(g: &Gen, r: &mut Rng, left: &mut usize, depth: usize, stem: &str, out: &mut String) {
    *left = left.saturating_sub(1);
    if depth >= g.depth || *left == 0 || (r.chance(45) && !(g.container && depth == 0)) {
        scalar(g, r, out);
        return;
    }
    let n = if r.chance(12) { 0 } else { r.range(1, 5) };
    let obj = r.chance(60);
    out.push(if obj { '{' } else { '[' });
    space(g, r, out);
    let mut used: Vec<String> = Vec::new();
    let mut first = true;
    for _ in 0..n {
        if obj {
            let mut k = if r.chance(60) {
                r.pick(&["a", "b", "aa", "ab", "abc", "k", "", "é", "a\"", "è", "aé"]).to_string()
            } else {
                chars(g, r)
            };
            if !stem.is_empty() && r.chance(75) {
                k.insert_str(0, stem);
            }
            if g.distinct {
                let mut i = 0;
                while used.contains(&k) {
                    k.push((b'a' + (i % 26) as u8) as char);
                    i += 1;
                }
                used.push(k.clone());
            }
            if !first {
                out.push(',');
                space(g, r, out);
            }
            quoted(&k, r, out);
            space(g, r, out);
            out.push(':');
            space(g, r, out);
        } else if !first {
            out.push(',');
            space(g, r, out);
        }
        first = false;
        value(g, r, left, depth + 1, stem, out);
        space(g, r, out);
    }
    out.push(if obj { '}' } else { ']' });
}

pub fn text(g: &Gen, r: &mut Rng) -> String {
    let mut out = String::new();
    space(g, r, &mut out);
    let mut left = g.size;
    let stem = if r.chance(10) { stem(r) } else { String::new() };
    value(g, r, &mut left, 0, &stem, &mut out);
    space(g, r, &mut out);
    out
}

/// A small random change to a text.
pub fn mutate(t: &Table, s: &str, r: &mut Rng) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 2) {
        let i = r.below(cs.len() + 1);
        match r.below(10) {
            8 | 9 => {
                // a structural character is replaced by another, doubled or lost
                let at: Vec<usize> = (0..cs.len()).filter(|i| "{}[],:".contains(cs[*i])).collect();
                if !at.is_empty() {
                    let i = *r.pick(&at);
                    match r.below(5) {
                        0 => {
                            cs.remove(i);
                        }
                        1 => cs.insert(i, cs[i]),
                        2 => cs[i] = *r.pick(&['{', '}', '[', ']', ',', ':']),
                        _ => {
                            cs[i] = match cs[i] {
                                '{' => '[',
                                '[' => '{',
                                '}' => ']',
                                ']' => '}',
                                ',' => ':',
                                _ => ',',
                            }
                        }
                    }
                }
            }
            0 if i < cs.len() => {
                cs.remove(i);
            }
            1 | 2 => {
                let c = r.below(t.classes.len()) as u8;
                cs.insert(i, t.rep(c, r));
            }
            3 if i < cs.len() => {
                let c = r.below(t.classes.len()) as u8;
                cs[i] = t.rep(c, r);
            }
            4 => cs.truncate(i),
            5 if i + 1 < cs.len() => cs.swap(i, i + 1),
            6 if i < cs.len() => {
                let c = cs[i];
                cs.insert(i, c);
            }
            _ => {
                // a structural character
                let c = *r.pick(&[',', ':', '}', ']', '{', '[', '"', '\\', '/', '0', '-']);
                cs.insert(i, c);
            }
        }
    }
    cs.into_iter().collect()
}

/// Deeply nested text, with some siblings on the way.
pub fn deep(depth: usize, r: &mut Rng, style: usize) -> String {
    let mut out = String::new();
    let mut close = Vec::new();
    for i in 0..depth {
        let obj = match style {
            0 => false,
            1 => true,
            _ => r.chance(50),
        };
        if obj {
            out.push_str(if style == 2 && i % 7 == 0 { "{\"b\":1,\"a\":" } else { "{\"a\":" });
            close.push('}');
        } else {
            out.push_str(if style == 2 && i % 5 == 0 { "[0," } else { "[" });
            close.push(']');
        }
    }
    out.push('1');
    while let Some(c) = close.pop() {
        if style == 2 && r.chance(10) {
            out.push_str(if c == '}' { ",\"c\":2" } else { ",3" });
        }
        out.push(c);
    }
    out
}
