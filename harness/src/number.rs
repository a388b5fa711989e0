//! Reading number literals in several places, and writing down literals.
use crate::report::catch;
use crate::rng::Rng;
use crate::visit::{config, Chunks};
use serdere::{Deserializer, Outliner, TextReader, Utf8Reader};
use serdere_json::{DeserializeError, DeserializeErrorMessage, JsonDeserializer, JsonOutliner, TextDeserializer};

#[derive(Debug, Clone, PartialEq)]
pub enum Got {
    Int(String),
    F32(u32),
    F64(u64),
    Err(String),
}

enum Stop<P> {
    /// the number itself was refused
    Number(DeserializeError<P>),
    /// something else went wrong
    Other(DeserializeError<P>),
}

impl<P> From<DeserializeError<P>> for Stop<P> {
    fn from(e: DeserializeError<P>) -> Self {
        Stop::Other(e)
    }
}

fn number<R: TextReader>(d: &mut TextDeserializer<R>, ty: &str, by_name: bool) -> Result<Got, Stop<R::Position>> {
    macro_rules! int {
        ($t:ty) => {
            d.read_number::<$t>().map(|x| Got::Int(x.to_string()))
        };
        ($t:ty, $get:ident) => {
            if by_name { d.$get().map(|x| Got::Int(x.to_string())) } else { int!($t) }
        };
    }
    match ty {
        "u8" => int!(u8, get_u8),
        "u16" => int!(u16, get_u16),
        "u32" => int!(u32, get_u32),
        "u64" => int!(u64, get_u64),
        "u128" => int!(u128),
        "i8" => int!(i8, get_i8),
        "i16" => int!(i16, get_i16),
        "i32" => int!(i32, get_i32),
        "i64" => int!(i64, get_i64),
        "i128" => int!(i128),
        "f32" => if by_name { d.get_f32() } else { d.read_number::<f32>() }.map(|x| Got::F32(x.to_bits())),
        "f64" => if by_name { d.get_f64() } else { d.read_number::<f64>() }.map(|x| Got::F64(x.to_bits())),
        t => panic!("type {t}"),
    }
    .map_err(Stop::Number)
}

/// Where the literal stands and how the reader gets to it.
pub const MODES: [&str; 10] =
    ["asidefar", "alone", "space", "list", "object", "aside", "asidedeep", "asidelist", "asidechain", "bytes"];

/// A key before the literal, so that what is set aside stands at all kinds of offsets.
fn far(lit: &str) -> String {
    let h = crate::report::hash(lit) as usize;
    let n = match h % 8 {
        0..=3 => (h >> 4) % 600,
        4..=6 => 256 * (1 + (h >> 4) % 4) - (h >> 8) % 24,
        _ => 65536 - (h >> 4) % 24,
    };
    "k".repeat(n)
}

pub fn text_for(mode: &str, lit: &str) -> String {
    match mode {
        "alone" | "bytes" => lit.to_string(),
        "space" => format!(" \n{lit}\t "),
        "list" => format!("[{lit},{lit}]"),
        "object" => format!("{{\"a\": {lit}}}"),
        "asidefar" => format!("{{\"{}\":{lit},\"b\":0}}", far(lit)),
        "aside" => format!("{{\"a\":{lit},\"b\":0}}"),
        "asidedeep" => format!("{{\"n\": 123, \"o\": {{\"x\": [1, {lit} , 45], \"y\": {lit}}}, \"s\": \"12\", \"b\": 0}}"),
        "asidelist" => format!("{{\"l\":[{lit},7,{lit},{lit}],\"b\":0}}"),
        "asidechain" => format!("{{\"p\":9,\"a\":{lit},\"q\":[55],\"b\":0,\"c\":77}}"),
        m => panic!("mode {m}"),
    }
}

fn get<R: TextReader>(
    d: &mut TextDeserializer<R>,
    mode: &str,
    ty: &str,
    by_name: bool,
) -> Result<Vec<Got>, Stop<R::Position>> {
    let mut out = Vec::new();
    let exact = |d: &mut TextDeserializer<R>, n: u64| -> Result<(), Stop<R::Position>> {
        let got = d.get_u64()?;
        if got != n {
            let e = d.error(format!("the number {n} nearby was read as {got}").into());
            return Err(Stop::Other(e));
        }
        Ok(())
    };
    match mode {
        "alone" | "space" | "bytes" => out.push(number(d, ty, by_name)?),
        "list" => {
            d.open_list()?;
            while d.next_item()? {
                out.push(number(d, ty, by_name)?);
            }
        }
        "object" => {
            d.open_object()?;
            d.push_entry("a")?;
            out.push(number(d, ty, by_name)?);
            d.close_object()?;
        }
        "asidefar" => {
            d.open_object()?;
            d.push_entry("b")?;
            exact(d, 0)?;
            d.next_entry()?;
            d.skip_str()?;
            out.push(number(d, ty, by_name)?);
            d.close_object()?;
        }
        "aside" => {
            d.open_object()?;
            d.push_entry("b")?;
            exact(d, 0)?;
            d.push_entry("a")?;
            out.push(number(d, ty, by_name)?);
            d.close_object()?;
        }
        "asidechain" => {
            d.open_object()?;
            d.push_entry("b")?;
            exact(d, 0)?;
            d.push_entry("p")?;
            exact(d, 9)?;
            d.push_entry("c")?;
            exact(d, 77)?;
            d.push_entry("a")?;
            out.push(number(d, ty, by_name)?);
            d.push_entry("q")?;
            d.open_list()?;
            d.push_item()?;
            exact(d, 55)?;
            d.close_list()?;
            d.close_object()?;
        }
        "asidedeep" => {
            d.open_object()?;
            d.push_entry("b")?;
            exact(d, 0)?;
            d.push_entry("o")?;
            d.open_object()?;
            d.push_entry("y")?;
            out.push(number(d, ty, by_name)?);
            d.push_entry("x")?;
            d.open_list()?;
            d.push_item()?;
            exact(d, 1)?;
            d.push_item()?;
            out.push(number(d, ty, by_name)?);
            d.push_item()?;
            exact(d, 45)?;
            d.close_list()?;
            d.close_object()?;
            d.push_entry("n")?;
            exact(d, 123)?;
            d.skip_object()?;
        }
        "asidelist" => {
            d.open_object()?;
            d.push_entry("b")?;
            exact(d, 0)?;
            d.push_entry("l")?;
            d.open_list()?;
            d.push_item()?;
            out.push(number(d, ty, by_name)?);
            d.push_item()?;
            exact(d, 7)?;
            d.push_item()?;
            d.skip_value()?;
            d.push_item()?;
            out.push(number(d, ty, by_name)?);
            d.close_list()?;
            d.close_object()?;
        }
        m => panic!("mode {m}"),
    }
    Ok(out)
}

fn whole<R: TextReader>(r: R, mode: &str, ty: &str, by_name: bool) -> Result<Got, String> {
    let other = |e: DeserializeError<R::Position>| e.message().to_string();
    let mut d = TextDeserializer::new(config(false), r).map_err(other)?;
    match get(&mut d, mode, ty, by_name) {
        Ok(got) => {
            d.close().map_err(|e| e.message().to_string())?;
            if got.windows(2).any(|w| w[0] != w[1]) {
                return Err(format!("the same literal gave {got:?}"));
            }
            Ok(got[0].clone())
        }
        Err(Stop::Number(e)) => match e.message() {
            DeserializeErrorMessage::NumberOverflow => Ok(Got::Err(e.message().to_string())),
            m => Ok(Got::Err(format!("not refused as a number out of range but: {m}"))),
        },
        Err(Stop::Other(e)) => Err(e.message().to_string()),
    }
}

/// Reads the literal; an error that is not about the number is given as Err.
pub fn read(lit: &str, mode: &str, ty: &str, by_name: bool, seed: u64) -> Result<Got, String> {
    let text = text_for(mode, lit);
    catch(|| {
        if mode == "bytes" {
            let r = Utf8Reader::new(Chunks::new(text.as_bytes(), Rng::new(seed))).map_err(|e| format!("{e}"))?;
            whole(r, mode, ty, by_name)
        } else {
            whole(text.as_str(), mode, ty, by_name)
        }
    })
    .unwrap_or_else(|m| Err(format!("panicked: {m}")))
}

#[derive(Debug, Clone)]
pub struct Lit {
    pub neg: bool,
    pub int: Vec<u8>,
    pub frac: Vec<u8>,
    pub es: &'static str,
    pub exp: Vec<u8>,
}

impl Lit {
    pub fn text(&self) -> String {
        let s = |d: &[u8]| d.iter().map(|x| (x + b'0') as char).collect::<String>();
        let mut t = String::new();
        if self.neg {
            t.push('-');
        }
        t += &s(&self.int);
        if !self.frac.is_empty() {
            t.push('.');
            t += &s(&self.frac);
        }
        if self.es != "none" {
            t.push(if self.exp.len() % 2 == 0 { 'e' } else { 'E' });
            t += self.es;
            t += &s(&self.exp);
        }
        t
    }
    pub fn fields(&self) -> String {
        format!(
            "\"neg\":{},\"int\":{:?},\"frac\":{:?},\"es\":\"{}\",\"exp\":{:?}",
            self.neg, self.int, self.frac, self.es, self.exp
        )
    }
}

pub fn digits(s: &str) -> Vec<u8> {
    s.bytes().map(|b| b - b'0').collect()
}

/// The value digits * 10^p written in a random way.
pub fn written(r: &mut Rng, neg: bool, d: &[u8], p: i64) -> Lit {
    let lead = if r.chance(40) { r.below(30) } else { 0 };
    let trail = if r.chance(50) { r.below(40) } else { 0 };
    let mut all = vec![0; lead];
    all.extend(d);
    all.extend(vec![0; trail]);
    let mut at = match r.below(4) {
        0 => 0,
        1 => all.len(),
        2 => 1.min(all.len()),
        _ => r.below(all.len() + 1),
    };
    if at > 1 && all[0] == 0 {
        at = if r.chance(50) { 0 } else { 1 };
    }
    let int = if at == 0 { vec![0] } else { all[..at].to_vec() };
    let frac = all[at..].to_vec();
    let e = p - trail as i64 + frac.len() as i64;
    let mut exp = vec![0; if r.chance(15) { r.range(1, 12) } else { 0 }];
    exp.extend(digits(&e.unsigned_abs().to_string()));
    let es = if e < 0 {
        "-"
    } else if e == 0 && r.chance(60) {
        exp.clear();
        "none"
    } else {
        *r.pick(&["", "+"])
    };
    Lit { neg, int, frac, es, exp }
}

