//! Two formats that are nothing but the calls: one that notes them, and one that answers as if it
//! held them.
use crate::run::Play;
use serdere::{Deserializer, NameMap, Outliner, Serializer};
use std::cell::{Cell, RefCell};

pub type Call = (String, String);

#[derive(Debug)]
pub enum Fail {
    Injected(usize),
    Custom(Box<dyn std::error::Error + Send + Sync>),
    Stray,
}
impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Fail {}
pub type R<T> = Result<T, Fail>;

pub struct TapeSer {
    nulls: bool,
    fail_at: Option<usize>,
    pub raw: usize,
    pub after: usize,
    calls: Vec<Call>,
    string: Option<String>,
}

impl TapeSer {
    pub fn new(nulls: bool, fail_at: Option<usize>) -> Self {
        TapeSer { nulls, fail_at, raw: 0, after: 0, calls: vec![], string: None }
    }
    pub fn calls(&self) -> Vec<Call> {
        let mut c = self.calls.clone();
        if let Some(s) = &self.string {
            c.push(("open string".into(), s.clone()));
        }
        c
    }
    fn enter(&mut self) -> R<()> {
        self.raw += 1;
        match self.fail_at {
            Some(n) if self.raw > n => {
                self.after += 1;
                Err(Fail::Stray)
            }
            Some(n) if self.raw == n => Err(Fail::Injected(n)),
            _ => Ok(()),
        }
    }
    fn call(&mut self, c: &str, x: impl Into<String>) -> R<()> {
        self.enter()?;
        if let Some(s) = self.string.take() {
            // nothing else may be called while a string is open
            self.calls.push(("unclosed string".into(), s));
        }
        self.calls.push((c.into(), x.into()));
        Ok(())
    }
    fn put(&mut self, t: &str, x: impl std::fmt::Display) -> R<()> {
        self.call("put", format!("{t}:{x}"))
    }
}

impl Outliner for TapeSer {
    type Error = Fail;
    fn supports_null(&self) -> bool {
        self.nulls
    }
    fn pop_null(&mut self) -> R<()> {
        self.call("null", "")
    }
    fn open_str(&mut self) -> R<()> {
        self.enter()?;
        if let Some(s) = self.string.replace(String::new()) {
            self.calls.push(("unclosed string".into(), s));
        }
        Ok(())
    }
    fn close_str(&mut self) -> R<()> {
        self.enter()?;
        match self.string.take() {
            Some(s) => self.calls.push(("put".into(), format!("str:{s}"))),
            None => self.calls.push(("close_str".into(), "no string".into())),
        }
        Ok(())
    }
    fn open_struct(&mut self, n: Option<&'static str>) -> R<()> {
        self.call("open_struct", n.unwrap_or(""))
    }
    fn push_field(&mut self, n: &'static str) -> R<()> {
        self.call("field", n)
    }
    fn close_struct(&mut self) -> R<()> {
        self.call("close_struct", "")
    }
    fn open_tuple(&mut self, n: Option<&'static str>) -> R<()> {
        self.call("open_tuple", n.unwrap_or(""))
    }
    fn push_element(&mut self) -> R<()> {
        self.call("elem", "")
    }
    fn close_tuple(&mut self) -> R<()> {
        self.call("close_tuple", "")
    }
    fn push_item(&mut self) -> R<()> {
        self.call("item", "")
    }
    fn close_list(&mut self) -> R<()> {
        self.call("close_list", "")
    }
}

macro_rules! puts {
    ($($f:ident $t:ty, $n:literal;)*) => {$(
        fn $f(&mut self, v: $t) -> R<()> {
            self.put($n, v)
        }
    )*};
}
impl Serializer for TapeSer {
    puts! {
        put_bool bool, "bool"; put_i8 i8, "i8"; put_i16 i16, "i16"; put_i32 i32, "i32"; put_i64 i64, "i64";
        put_u8 u8, "u8"; put_u16 u16, "u16"; put_u32 u32, "u32"; put_u64 u64, "u64"; put_char char, "char";
    }
    fn put_f32(&mut self, v: f32) -> R<()> {
        self.put("f32", format!("{v:?}"))
    }
    fn put_f64(&mut self, v: f64) -> R<()> {
        self.put("f64", format!("{v:?}"))
    }
    fn append_char(&mut self, c: char) -> R<()> {
        self.enter()?;
        match &mut self.string {
            Some(s) => s.push(c),
            None => self.calls.push(("append_char".into(), "no string".into())),
        }
        Ok(())
    }
    fn put_tag(&mut self, max: usize, index: usize, name: Option<&'static str>) -> R<()> {
        self.call("tag", format!("{max}:{index}:{}", name.unwrap_or("(no name)")))
    }
    fn open_list_sized(&mut self, len: usize) -> R<()> {
        self.call("open_list", len.to_string())
    }
}

pub struct TapeDe {
    calls: Vec<Call>,
    at: usize,
    play: Play,
    pub raw: Cell<usize>,
    pub after: Cell<usize>,
    failed: Cell<bool>,
    pub stray: RefCell<Option<String>>,
    string: Option<std::vec::IntoIter<char>>,
    tags: usize,
}

impl TapeDe {
    pub fn new(calls: Vec<Call>, play: Play) -> Self {
        TapeDe {
            calls,
            at: 0,
            play,
            raw: Cell::new(0),
            after: Cell::new(0),
            failed: Cell::new(false),
            stray: RefCell::new(None),
            string: None,
            tags: 0,
        }
    }
    pub fn rest(&self) -> usize {
        self.calls.len() - self.at
    }
    fn enter(&self) -> R<()> {
        self.raw.set(self.raw.get() + 1);
        if self.failed.get() {
            self.after.set(self.after.get() + 1);
            return Err(Fail::Stray);
        }
        if self.play.fail_at == Some(self.raw.get()) {
            self.failed.set(true);
            return Err(Fail::Injected(self.raw.get()));
        }
        Ok(())
    }
    fn is_stray<T>(&self, what: String) -> R<T> {
        self.failed.set(true);
        let next = self.calls.get(self.at);
        self.stray.borrow_mut().get_or_insert(format!("{what} where the tape has {next:?} (call {})", self.at));
        Err(Fail::Stray)
    }
    /// Takes the next call, which has to be the given one.
    fn take(&mut self, c: &str, is: impl Fn(&str) -> bool, what: &str) -> R<String> {
        if self.string.is_some() {
            return self.is_stray(format!("{c} {what} within a string"));
        }
        match self.calls.get(self.at) {
            Some((k, x)) if k == c && is(x) => {
                self.at += 1;
                Ok(self.calls[self.at - 1].1.clone())
            }
            _ => self.is_stray(format!("{c} {what}")),
        }
    }
    fn call(&mut self, c: &str, x: &str) -> R<()> {
        self.enter()?;
        self.take(c, |y| y == x, x).map(|_| ())
    }
    fn next_is(&self, c: &str) -> bool {
        self.string.is_none() && self.calls.get(self.at).is_some_and(|k| k.0 == c)
    }
    fn get<T: std::str::FromStr>(&mut self, t: &str) -> R<T> {
        self.enter()?;
        let p = format!("{t}:");
        let x = self.take("put", |y| y.starts_with(&p), t)?;
        x[p.len()..].parse().or_else(|_| self.is_stray(format!("{x} does not parse")))
    }
}

impl Outliner for TapeDe {
    type Error = Fail;
    fn supports_null(&self) -> bool {
        self.play.nulls
    }
    fn pop_null(&mut self) -> R<()> {
        self.call("null", "")
    }
    fn open_str(&mut self) -> R<()> {
        self.enter()?;
        let x = self.take("put", |y| y.starts_with("str:"), "str")?;
        self.string = Some(x[4..].chars().collect::<Vec<_>>().into_iter());
        Ok(())
    }
    fn close_str(&mut self) -> R<()> {
        self.enter()?;
        match self.string.take() {
            Some(s) if s.as_slice().is_empty() => Ok(()),
            _ => self.is_stray("close_str".into()),
        }
    }
    fn open_struct(&mut self, n: Option<&'static str>) -> R<()> {
        self.call("open_struct", n.unwrap_or(""))
    }
    fn push_field(&mut self, n: &'static str) -> R<()> {
        self.call("field", n)
    }
    fn close_struct(&mut self) -> R<()> {
        self.call("close_struct", "")
    }
    fn open_tuple(&mut self, n: Option<&'static str>) -> R<()> {
        self.call("open_tuple", n.unwrap_or(""))
    }
    fn push_element(&mut self) -> R<()> {
        self.call("elem", "")
    }
    fn close_tuple(&mut self) -> R<()> {
        self.call("close_tuple", "")
    }
    fn push_item(&mut self) -> R<()> {
        self.call("item", "")
    }
    fn close_list(&mut self) -> R<()> {
        self.call("close_list", "")
    }
}

macro_rules! gets {
    ($($f:ident $t:ty, $n:literal;)*) => {$(
        fn $f(&mut self) -> R<$t> {
            self.get($n)
        }
    )*};
}
impl Deserializer for TapeDe {
    gets! {
        get_bool bool, "bool"; get_i8 i8, "i8"; get_i16 i16, "i16"; get_i32 i32, "i32"; get_i64 i64, "i64";
        get_u8 u8, "u8"; get_u16 u16, "u16"; get_u32 u32, "u32"; get_u64 u64, "u64"; get_char char, "char";
        get_f32 f32, "f32"; get_f64 f64, "f64";
    }
    fn next_char(&mut self) -> R<Option<char>> {
        self.enter()?;
        let Some(s) = &mut self.string else { return self.is_stray("next_char".into()) };
        let c = s.next();
        if c.is_none() {
            self.string = None;
        }
        Ok(c)
    }
    fn get_tag(&mut self, max: usize, names: &'static NameMap<usize>) -> R<usize> {
        self.enter()?;
        let p = format!("{max}:");
        let x = self.take("tag", |y| y.starts_with(&p), &format!("(maximum {max})"))?;
        let (index, name) = x[p.len()..].split_once(':').unwrap();
        let bad = self.play.bad_tag == Some(self.tags);
        self.tags += 1;
        if self.play.by_index {
            if bad {
                self.failed.set(true);
                return Ok(max + 1);
            }
            Ok(index.parse().unwrap())
        } else {
            let mut name = name.to_string();
            if bad {
                name.push_str("\u{1}zz");
            }
            self.string = Some(name.chars().collect::<Vec<_>>().into_iter());
            let res = self.flush_name(names);
            if bad {
                self.failed.set(true);
            }
            res
        }
    }
    fn check_null(&mut self) -> R<bool> {
        self.enter()?;
        if !self.play.nulls {
            return self.is_stray("check_null although nulls are not supported".into());
        }
        if self.string.is_some() || self.at >= self.calls.len() {
            return self.is_stray("check_null".into());
        }
        let yes = self.next_is("null");
        if yes {
            self.at += 1;
        }
        Ok(yes)
    }
    fn open_list(&mut self) -> R<Option<usize>> {
        self.enter()?;
        let x = self.take("open_list", |_| true, "")?;
        Ok(if self.play.lengths { Some(x.parse().unwrap()) } else { None })
    }
    fn next_item(&mut self) -> R<bool> {
        self.enter()?;
        if self.next_is("item") {
            self.at += 1;
            Ok(true)
        } else {
            self.take("close_list", |_| true, "(next_item)")?;
            Ok(false)
        }
    }
    fn error(&self, source: Box<dyn std::error::Error + Send + Sync>) -> Fail {
        Fail::Custom(source)
    }
    fn error_missing_item(&self) -> Fail {
        Fail::Custom("missing item".into())
    }
    fn error_extra_item(&self) -> Fail {
        Fail::Custom("extra item".into())
    }
}
