//! Conformance of the UTF-8 reader with the Utf8 specification.
use harness::gen::any_char;
use harness::json::J;
use harness::report::{catch, hash, parallel, save, Args, Report};
use harness::rng::Rng;
use serdere::{TextReader, Utf8Reader};
use serdere_json::DeserializeErrorMessage;
use std::io;
use std::sync::Mutex;

const KEY: &str = "utf8reader-next-panics";

/// The printed automaton.
struct Table {
    next: Vec<[u8; 256]>,
    bits: Vec<[u32; 256]>,
    start: u8,
}
const CHAR: u8 = 100;
const BAD: u8 = 101;

impl Table {
    fn load(j: &J) -> Table {
        let names: Vec<&String> = j.obj().keys().collect();
        let index = |n: &str| match n {
            "char" => CHAR,
            "bad" => BAD,
            n => names.iter().position(|m| *m == n).unwrap() as u8,
        };
        let mut t = Table { next: Vec::new(), bits: Vec::new(), start: index("start") };
        for n in &names {
            let (mut a, mut b) = ([0; 256], [0; 256]);
            for (i, e) in j.get(n).arr().iter().enumerate() {
                a[i] = index(e.get("n").str());
                b[i] = e.get("v").int() as u32;
            }
            t.next.push(a);
            t.bits.push(b);
        }
        t
    }
    /// What a read of one character from these bytes has to give, and how many bytes it takes:
    /// a character, nothing at the end (None) or an error.
    fn read(&self, b: &[u8]) -> (Result<Option<u32>, ()>, usize) {
        let (mut q, mut cp) = (self.start, 0u32);
        for (i, b) in b.iter().enumerate() {
            let shift = if q == self.start { 0 } else { 64 };
            cp = cp * shift + self.bits[q as usize][*b as usize];
            match self.next[q as usize][*b as usize] {
                CHAR => return (Ok(Some(cp)), i + 1),
                BAD => return (Err(()), i + 1),
                s => q = s,
            }
        }
        (if q == self.start { Ok(None) } else { Err(()) }, b.len())
    }
    /// The characters before the first error, and whether there is one.
    fn all(&self, mut b: &[u8]) -> (Vec<u32>, bool) {
        let mut out = Vec::new();
        loop {
            match self.read(b) {
                (Ok(Some(c)), n) => {
                    out.push(c);
                    b = &b[n..];
                }
                (Ok(None), _) => return (out, false),
                (Err(()), _) => return (out, true),
            }
        }
    }
}

fn read_one(b: &[u8]) -> (Result<Option<u32>, ()>, usize) {
    let mut s = b;
    let r = Utf8Reader::new(&mut s).map(|r| r.peek().map(|c| c as u32)).map_err(|_| ());
    (r, b.len() - s.len())
}

fn same(t: &Table, b: &[u8]) -> Option<String> {
    let (owed, n) = t.read(b);
    let (got, m) = read_one(b);
    if owed != got {
        return Some(format!("bytes {b:02x?} are read as {got:?}, not {owed:?}"));
    }
    if matches!(owed, Ok(Some(_))) && n != m {
        return Some(format!("bytes {b:02x?}: {m} were taken, not {n}"));
    }
    None
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Byte(u8),
    Intr,
    Fail,
    Eof,
    Char(u32),
    End,
    Error,
}

/// A source that is interrupted at times and fails at an offset.
struct Source<'a> {
    data: &'a [u8],
    at: usize,
    fail: usize,
    kind: usize,
    interrupt: usize,
    r: Rng,
    log: &'a std::cell::RefCell<Vec<Ev>>,
}

impl io::Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.r.chance(self.interrupt) {
            self.log.borrow_mut().push(Ev::Intr);
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.at == self.fail {
            self.log.borrow_mut().push(Ev::Fail);
            return Err(match self.kind % 6 {
                0 => io::Error::new(io::ErrorKind::Other, "the source failed"),
                1 => io::ErrorKind::UnexpectedEof.into(),
                2 => io::ErrorKind::WouldBlock.into(),
                3 => io::Error::from_raw_os_error(5),
                4 => io::ErrorKind::BrokenPipe.into(),
                _ => io::ErrorKind::TimedOut.into(),
            });
        }
        let n = self.r.range(1, buf.len()).min(self.data.len() - self.at).min(self.fail.wrapping_sub(self.at));
        if n == 0 {
            self.log.borrow_mut().push(Ev::Eof);
            return Ok(0);
        }
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.log.borrow_mut().extend(buf[..n].iter().map(|b| Ev::Byte(*b)));
        self.at += n;
        Ok(n)
    }
}

/// A sequence that is not UTF-8, of some kind.
fn bad_bytes(r: &mut Rng) -> Vec<u8> {
    let cont = |r: &mut Rng| 0x80 + r.below(64) as u8;
    match r.below(9) {
        0 => vec![cont(r)],
        1 => vec![*r.pick(&[0xC0u8, 0xC1]), cont(r)],
        2 => vec![0xE0, 0x80 + r.below(32) as u8, cont(r)],
        3 => vec![0xED, 0xA0 + r.below(32) as u8, cont(r)],
        4 => vec![0xF0, 0x80 + r.below(16) as u8, cont(r), cont(r)],
        5 => vec![0xF4, 0x90 + r.below(48) as u8, cont(r), cont(r)],
        6 => vec![0xF5 + r.below(11) as u8, cont(r), cont(r), cont(r)],
        7 => {
            // truncated: something else follows
            let mut b = [0; 4];
            let n = char::from_u32(*r.pick(&[0xE9, 0x65E5, 0x10FFFF, 0x7FF, 0x800, 0x10000])).unwrap().encode_utf8(&mut b).len();
            b[..r.range(1, n - 1)].to_vec()
        }
        _ => {
            // one byte of a character changed
            let mut b = [0; 4];
            let n = char::from_u32(*r.pick(&[0xE9, 0x65E5, 0x10FFFF, 0x7FF, 0x800, 0x10000])).unwrap().encode_utf8(&mut b).len();
            b[r.range(1, n - 1)] = *r.pick(&[b'a', b'"', 0xC3, 0xFF, b' ']);
            b[..n].to_vec()
        }
    }
}

fn text_of(c: &[u32]) -> String {
    c.iter().map(|c| char::from_u32(*c).unwrap()).collect()
}

fn main() {
    let args = Args::parse();
    let threads = 8;
    let rep = Report::new(&args, threads);
    let seed = args.seed();
    let thorough = args.thorough();
    let table = Table::load(&args.lines("table")[0]);
    let n: usize = args.get("random").parse().unwrap();
    let n = if thorough { n * 50 } else { n };

    // all sequences of up to three bytes, and those of four with a leading byte of four or more
    if let Some(m) = same(&table, &[]) {
        rep.violation(&m, "no bytes at all");
    }
    parallel(&rep, threads, 256, |t, j| {
        let a = j as u8;
        rep.case(t, || format!("all sequences that start with {a:#04x}"));
        rep.distinct(j as u64);
        let mut n = 0;
        let bad = catch(|| {
            let check = |b: &[u8]| same(&table, b);
            if let Some(m) = check(&[a]) {
                return Some(m);
            }
            for b in 0..=255u8 {
                rep.beat(t);
                if let Some(m) = check(&[a, b]) {
                    return Some(m);
                }
                for c in 0..=255u8 {
                    if let Some(m) = check(&[a, b, c]) {
                        return Some(m);
                    }
                    n += 1;
                    if a >= 0xF0 && (a < 0xF6 || thorough) {
                        let some = a > 0xF4 || (a < 0xF4 && a > 0xF0 && !thorough);
                        let step = if some { 7 } else { 1 };
                        for d in (0..=255u8).step_by(step) {
                            if let Some(m) = check(&[a, b, c, d]) {
                                return Some(m);
                            }
                            n += 1;
                        }
                    }
                }
            }
            None
        });
        rep.count("byte_sequences", n);
        match bad {
            Ok(None) => {}
            Ok(Some(m)) => rep.violation(&m, "Utf8Reader::new"),
            Err(m) => rep.violation(&format!("Utf8Reader::new panicked: {m}"), &format!("sequences that start with {a:#04x}")),
        }
    });

    // recorded reads from sources that are interrupted, fail and end anywhere
    let recorded = Mutex::new(Vec::new());
    parallel(&rep, threads, n.div_ceil(10), |t, j| {
        let mut r = Rng::new(seed.wrapping_mul(41) ^ (j as u64) << 24);
        for _ in 0..10 {
            let mut data = Vec::new();
            for _ in 0..r.below(7) {
                if r.chance(25) {
                    data.extend(bad_bytes(&mut r));
                } else {
                    data.extend(any_char(&mut r).to_string().bytes());
                }
            }
            let fail = if r.chance(50) { r.below(data.len() + 1) } else { usize::MAX };
            let kind = r.below(6);
            let interrupt = *r.pick(&[0, 20, 50]);
            let case = format!("{data:02x?}, failing at {} (kind {kind}), interrupted {interrupt}%", fail as i64);
            rep.case(t, || case.clone());
            rep.distinct(hash(&case));
            // the reader is always one character ahead: its first read is that of `new`, another is
            // made by each `next`
            let log = std::cell::RefCell::new(Vec::new());
            let src = Source { data: &data, at: 0, fail, kind, interrupt, r: r.fork(), log: &log };
            let outcome = |c: Option<char>| {
                log.borrow_mut().push(match c {
                    Some(c) => Ev::Char(c as u32),
                    None => Ev::End,
                })
            };
            let res = catch(|| {
                let Ok(mut rd) = Utf8Reader::new(src) else {
                    log.borrow_mut().push(Ev::Error);
                    return;
                };
                outcome(rd.peek());
                while let Some(_) = rd.next() {
                    outcome(rd.peek());
                }
            });
            if res.is_err() {
                if log.borrow().iter().any(|e| matches!(e, Ev::Char(_))) {
                    rep.finding(KEY, &case);
                    log.borrow_mut().push(Ev::Error);
                } else {
                    rep.violation("Utf8Reader::new panicked", &case);
                    continue;
                }
            }
            let log = log.into_inner();
            let ev: Vec<String> = log
                .iter()
                .map(|e| {
                    let (e, b) = match e {
                        Ev::Byte(b) => ("byte", *b as u32),
                        Ev::Intr => ("intr", 0),
                        Ev::Fail => ("fail", 0),
                        Ev::Eof => ("eof", 0),
                        Ev::Char(c) => ("char", *c),
                        Ev::End => ("end", 0),
                        Ev::Error => ("error", 0),
                    };
                    format!("{{\"e\":\"{e}\",\"b\":{b}}}")
                })
                .collect();
            recorded.lock().unwrap().push((format!("{{\"ev\":[{}]}}", ev.join(",")), case));
        }
    });
    let mut out = recorded.into_inner().unwrap();
    out.sort();
    out.dedup_by(|a, b| a.0 == b.0);
    save("decodes", out);

    // the reader over whole texts: what precedes the fault, and then an error
    parallel(&rep, threads, n.div_ceil(10), |t, j| {
        let mut r = Rng::new(seed.wrapping_mul(43) ^ (j as u64) << 24);
        for _ in 0..10 {
            let mut data: Vec<u8> = (0..r.below(40)).map(|_| any_char(&mut r)).collect::<String>().into_bytes();
            let mut fail = usize::MAX;
            if r.chance(60) {
                data.extend(bad_bytes(&mut r));
                data.extend((0..r.below(5)).map(|_| any_char(&mut r)).collect::<String>().into_bytes());
            } else {
                fail = r.below(data.len() + 1);
            }
            let kind = r.below(6);
            let interrupt = *r.pick(&[0, 20]);
            let (owed, faulty) = if fail == usize::MAX { table.all(&data) } else { (table.all(&data[..fail]).0, true) };
            let case = format!("{data:02x?}, failing at {} (kind {kind}), interrupted {interrupt}%", fail as i64);
            rep.case(t, || case.clone());
            rep.distinct(hash(&case));
            if !faulty {
                continue;
            }
            let mut got = Vec::new();
            let log = Default::default();
            let src = Source { data: &data, at: 0, fail, kind, interrupt, r: r.fork(), log: &log };
            let buffered = r.chance(30);
            let mut ended = false;
            let mut peeked = None;
            let res = catch(|| {
                let src: Box<dyn io::Read> = if buffered { Box::new(io::BufReader::with_capacity(r.range(1, 16), src)) } else { Box::new(src) };
                let mut rd = Utf8Reader::new(src)?;
                loop {
                    let p = rd.peek();
                    peeked = p;
                    match rd.next() {
                        Some(c) => {
                            if p != Some(c) {
                                got.push(0x200000);
                            }
                            got.push(c as u32);
                        }
                        None => {
                            ended = true;
                            return Ok::<(), io::Error>(());
                        }
                    }
                }
            });
            // what the reader saw, one ahead of what it gave
            let mut seen = got.clone();
            if let (Some(p), true) = (peeked, res.is_err()) {
                seen.push(p as u32);
            }
            let bad = if ended {
                Some("the fault was taken for the end of the text".to_string())
            } else if seen.len() > owed.len() || owed[..seen.len()] != seen[..] {
                Some(format!("gave {:?}", seen.iter().map(|c| format!("{c:x}")).collect::<Vec<_>>()))
            } else if seen.len() != owed.len() {
                Some(format!("failed after {} characters of {}", seen.len(), owed.len()))
            } else {
                None
            };
            if let Some(m) = bad {
                rep.violation(&m, &case);
            } else if res.is_err() {
                rep.finding(KEY, &case);
            }
        }
    });

    // JSON texts: the fault inside of what has to be read
    parallel(&rep, threads, n.div_ceil(10), |t, j| {
        let mut r = Rng::new(seed.wrapping_mul(47) ^ (j as u64) << 24);
        for _ in 0..10 {
            let word: String = (0..r.below(6)).map(|_| *r.pick(&['a', 'é', '日', '\u{10FFFF}', ' ', '0'])).collect();
            let (text, what) = match r.below(6) {
                0 => (format!("\"{word}\""), 0),
                1 => (format!("[\"{word}\", \"x\"]"), 1),
                2 => (format!("{{\"b\": \"{word}\", \"a\": \"{word}\"}}"), 2),
                3 => (format!("{}", r.next() % 100_000), 3),
                4 => (format!("/* {word} */ {} // {word}\n", r.next() % 1000), 3),
                _ => (format!("[[1, \"{word}\"], {{\"{word}\": [null, true]}}]"), 4),
            };
            let mut data = text.into_bytes();
            let mut fail = usize::MAX;
            let at = r.below(data.len() + 1);
            if r.chance(50) {
                let b = bad_bytes(&mut r);
                let tail = data.split_off(at);
                data.extend(b);
                data.extend(tail);
                if !table.all(&data).1 {
                    continue;
                }
            } else {
                fail = at;
            }
            let before = text_of(&if fail == usize::MAX { table.all(&data).0 } else { table.all(&data[..fail]).0 });
            let case = format!("{:?} (bytes {data:02x?}), failing at {}, read as {what}", String::from_utf8_lossy(&data), fail as i64);
            rep.case(t, || case.clone());
            rep.distinct(hash(&case));
            let log = Default::default();
            let src = Source { data: &data, at: 0, fail, kind: r.below(6), interrupt: *r.pick(&[0, 10]), r: r.fork(), log: &log };
            // is there already an error in what precedes the fault?
            let err = |e: serdere_json::DeserializeError<_>| format!("{:?}", e.message()).split('(').next().unwrap().to_string();
            let res = catch(|| {
                let rd = Utf8Reader::new(src).map_err(|_| "io".to_string())?;
                match what {
                    0 => serdere_json::from_reader::<_, String>(rd).map(|_| ()).map_err(err),
                    1 => serdere_json::from_reader::<_, Vec<String>>(rd).map(|_| ()).map_err(err),
                    2 => serdere_json::from_reader::<_, Pair>(rd).map(|_| ()).map_err(err),
                    3 => serdere_json::from_reader::<_, u64>(rd).map(|_| ()).map_err(err),
                    _ => serdere_json::from_reader::<_, ((u8, String), Any)>(rd).map(|_| ()).map_err(err),
                }
            });
            // an error that what precedes the fault has by itself
            let own = match what {
                0 => serdere_json::from_str::<String>(&before).err().map(|e| format!("{:?}", e.message())),
                1 => serdere_json::from_str::<Vec<String>>(&before).err().map(|e| format!("{:?}", e.message())),
                2 => serdere_json::from_str::<Pair>(&before).err().map(|e| format!("{:?}", e.message())),
                3 => serdere_json::from_str::<u64>(&before).err().map(|e| format!("{:?}", e.message())),
                _ => serdere_json::from_str::<((u8, String), Any)>(&before).err().map(|e| format!("{:?}", e.message())),
            }
            .map(|m| m.split('(').next().unwrap().to_string());
            match res {
                Err(_) => rep.finding(KEY, &case),
                Ok(Err(m)) if m == "io" => {}
                Ok(Ok(())) => rep.violation("the text was accepted", &case),
                Ok(Err(m)) => {
                    // a proper report of the fault would be a kind of error that there is not yet
                    let known = [
                        DeserializeErrorMessage::UnexpectedEof,
                        DeserializeErrorMessage::UnexpectedChar,
                        DeserializeErrorMessage::InvalidLiteral,
                        DeserializeErrorMessage::NumberOverflow,
                    ];
                    if m == "UnexpectedEof" || (known.iter().any(|k| format!("{k:?}") == m) && own.as_deref() != Some(m.as_str())) {
                        rep.violation(&format!("the fault was reported as {m}"), &case);
                    }
                }
            }
        }
    });
    rep.sample(|| "all byte sequences of up to three bytes; texts with ill-formed sequences and failing sources".into());
    rep.finish();
}

#[derive(Debug, serdere::Deserialize)]
struct Pair {
    #[allow(dead_code)]
    a: String,
    #[allow(dead_code)]
    b: String,
}

/// Skips whatever there is.
struct Any;
impl<D: serdere_json::JsonDeserializer + ?Sized> serdere::Deserialize<D> for Any {
    const NULLABLE: bool = false;
    fn deserialize(value: serdere::Value<D>, _: &mut ()) -> Result<Self, D::Error> {
        use serdere_json::ValueDeserializerExt;
        value.skip()?;
        Ok(Any)
    }
}
