//! What can be done with a type: writing and reading JSON, and writing to and reading from a tape
//! of calls.
use crate::abs::*;
use crate::tape::{Call, Fail, TapeDe, TapeSer};
use harness::rng::Rng;
use harness::visit::Chunks;
use serdere::deserialize::{InvalidIndexError, InvalidNameError};
use serdere::{Deserialize, Serialize, Utf8Reader, Utf8Writer, Value};
use serdere_json::{
    from_reader_using, from_str_using, to_str_using, to_writer_using, DeserializeError,
    DeserializeErrorMessage, TextDeserializer, TextSerializer, TextSerializerConfig,
};

/// An error, named as the specification does.
#[derive(Clone, PartialEq, Debug)]
pub struct Fault {
    pub name: String,
    /// the number that was odd
    pub odd: Option<u32>,
    pub show: String,
}

pub fn custom(e: &(dyn std::error::Error + 'static)) -> (&'static str, Option<u32>) {
    if e.is::<InvalidNameError>() {
        ("custom:name", None)
    } else if e.is::<InvalidIndexError>() {
        ("custom:index", None)
    } else if e.is::<std::num::TryFromIntError>() {
        ("custom:zero", None)
    } else if let Some(e) = e.downcast_ref::<OddError>() {
        ("custom:odd", Some(e.0))
    } else {
        ("other", None)
    }
}

fn fault<P: std::fmt::Debug + std::fmt::Display>(e: DeserializeError<P>) -> Fault {
    use DeserializeErrorMessage::*;
    let show = format!("{}", e.message());
    // the error that a validation gave is also the cause of the one that came out
    let cause = std::error::Error::source(&e);
    let lost = match e.message() {
        Custom(c) => !cause.is_some_and(|x| custom(x) == custom(&**c) && x.to_string() == c.to_string()),
        _ => cause.is_some(),
    };
    if lost {
        return Fault { name: "custom:lost".into(), odd: None, show: format!("{show}, with the cause {cause:?}") };
    }
    match e.message() {
        MissingKey(k) => Fault { name: format!("missing:{}", place(k)), odd: None, show },
        Custom(c) => {
            let (name, odd) = custom(&**c);
            Fault { name: name.into(), odd, show }
        }
        _ => Fault { name: "other".into(), odd: None, show },
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum WriteHow {
    Str,
    Indent(&'static str),
    Bytes,
    BytesIndent(&'static str),
}

pub struct Wrote {
    pub calls: Vec<Call>,
    pub log: Vec<String>,
    /// the result is the injected failure
    pub failed: bool,
    pub raw: usize,
    /// calls made after a failure
    pub after: usize,
}

pub struct Played {
    pub res: Result<A, String>,
    pub log: Vec<String>,
    pub raw: usize,
    pub after: usize,
    /// what was called that the tape does not say
    pub stray: Option<String>,
    pub rest: usize,
}

pub struct Writer {
    pub json: fn(&A, WriteHow) -> (String, Vec<String>),
    pub tape: fn(&A, bool, Option<usize>) -> Wrote,
}
pub struct Reader {
    pub json: fn(&str, Option<Rng>) -> Result<(A, Vec<String>), Fault>,
    pub tape: fn(&[Call], &Play) -> Played,
    pub con: fn(&A) -> A,
}

/// How a tape is to be played.
#[derive(Clone, Default, Debug)]
pub struct Play {
    pub nulls: bool,
    pub lengths: bool,
    pub by_index: bool,
    pub fail_at: Option<usize>,
    /// the tag with this number is not a declared one
    pub bad_tag: Option<usize>,
}

pub struct Entry {
    pub id: i64,
    pub desc: &'static str,
    pub writer: Option<Writer>,
    pub reader: Reader,
}

fn json_write<T>(a: &A, how: WriteHow) -> (String, Vec<String>)
where
    T: Abs + for<'a> Serialize<TextSerializer<&'a mut String>, Log>
        + for<'a> Serialize<TextSerializer<Utf8Writer<&'a mut Vec<u8>>>, Log>,
{
    let x = T::of_a(a);
    let mut log = Log::default();
    let out = match how {
        WriteHow::Str => to_str_using(&x, &mut log),
        WriteHow::Indent(i) => {
            let mut out = String::new();
            let mut s = TextSerializer::new(TextSerializerConfig { indent: Some(i) }, &mut out);
            Value::with(&mut s, |v| x.serialize(v, &mut log)).unwrap();
            s.close();
            out
        }
        WriteHow::Bytes => {
            let mut out = Vec::new();
            to_writer_using(Utf8Writer::new(&mut out), &x, &mut log).unwrap();
            String::from_utf8(out).unwrap()
        }
        WriteHow::BytesIndent(i) => {
            let mut out = Vec::new();
            let mut s = TextSerializer::new(TextSerializerConfig { indent: Some(i) }, Utf8Writer::new(&mut out));
            Value::with(&mut s, |v| x.serialize(v, &mut log)).unwrap();
            s.close();
            String::from_utf8(out).unwrap()
        }
    };
    (out, log.0)
}

fn json_read<T>(s: &str, chunks: Option<Rng>) -> Result<(A, Vec<String>), Fault>
where
    T: Abs + for<'a> Deserialize<TextDeserializer<&'a str>, Log>
        + for<'a> Deserialize<TextDeserializer<Utf8Reader<Chunks<'a>>>, Log>,
{
    let mut log = Log::default();
    let x: T = match chunks {
        None => from_str_using(s, &mut log).map_err(fault)?,
        Some(rng) => {
            let r = Utf8Reader::new(Chunks::new(s.as_bytes(), rng)).unwrap();
            from_reader_using(r, &mut log).map_err(fault)?
        }
    };
    Ok((x.to_a(), log.0))
}

fn tape_write<T: Abs + Serialize<TapeSer, Log>>(a: &A, nulls: bool, fail_at: Option<usize>) -> Wrote {
    let x = T::of_a(a);
    let mut log = Log::default();
    let mut s = TapeSer::new(nulls, fail_at);
    let res = Value::with(&mut s, |v| x.serialize(v, &mut log));
    let failed = matches!(res, Err(Fail::Injected(n)) if Some(n) == fail_at);
    assert!(failed || res.is_ok(), "another error came out: {res:?}");
    Wrote { calls: s.calls(), log: log.0, failed, raw: s.raw, after: s.after }
}

fn tape_read<T: Abs + Deserialize<TapeDe, Log>>(calls: &[Call], play: &Play) -> Played {
    let mut log = Log::default();
    let mut d = TapeDe::new(calls.to_vec(), play.clone());
    let res = Value::with(&mut d, |v| T::deserialize(v, &mut log));
    Played {
        res: match res {
            Ok(x) => Ok(x.to_a()),
            Err(Fail::Injected(n)) => Err(format!("injected {n}")),
            Err(Fail::Custom(e)) => Err(custom(&*e).0.to_string()),
            Err(Fail::Stray) => Err("stray".into()),
        },
        log: log.0,
        raw: d.raw.get(),
        after: d.after.get(),
        stray: d.stray.take(),
        rest: d.rest(),
    }
}

fn con<T: Abs>(a: &A) -> A {
    T::of_a(a).to_a()
}

pub fn r<T>(id: i64, desc: &'static str) -> Entry
where
    T: Abs + Deserialize<TapeDe, Log> + for<'a> Deserialize<TextDeserializer<&'a str>, Log>
        + for<'a> Deserialize<TextDeserializer<Utf8Reader<Chunks<'a>>>, Log>,
{
    Entry {
        id,
        desc,
        writer: None,
        reader: Reader { json: json_read::<T>, tape: tape_read::<T>, con: con::<T> },
    }
}

pub fn rw<T>(id: i64, desc: &'static str) -> Entry
where
    T: Abs + Deserialize<TapeDe, Log> + for<'a> Deserialize<TextDeserializer<&'a str>, Log>
        + for<'a> Deserialize<TextDeserializer<Utf8Reader<Chunks<'a>>>, Log>
        + Serialize<TapeSer, Log> + for<'a> Serialize<TextSerializer<&'a mut String>, Log>
        + for<'a> Serialize<TextSerializer<Utf8Writer<&'a mut Vec<u8>>>, Log>,
{
    Entry { writer: Some(Writer { json: json_write::<T>, tape: tape_write::<T> }), ..r::<T>(id, desc) }
}
