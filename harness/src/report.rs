//! Command line, parallel execution, watchdog and reporting.
use crate::json::quote;
use std::collections::HashSet;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Args(pub BTreeMap<String, String>);

impl Args {
    pub fn parse() -> Args {
        let mut m = BTreeMap::new();
        let mut it = std::env::args().skip(1);
        while let Some(k) = it.next() {
            let k = k.strip_prefix("--").expect("flags start with --").to_string();
            let v = it.next().expect("flag without value");
            m.insert(k, v);
        }
        Args(m)
    }
    pub fn get(&self, k: &str) -> &str {
        self.0.get(k).unwrap_or_else(|| panic!("missing --{k}"))
    }
    pub fn opt(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
    pub fn seed(&self) -> u64 {
        self.get("seed").parse().unwrap()
    }
    pub fn thorough(&self) -> bool {
        self.get("tier") == "thorough"
    }
    /// The lines of spec output in the file of the given flag (each is a JSON value).
    pub fn lines(&self, k: &str) -> Vec<crate::json::J> {
        let s = std::fs::read_to_string(self.get(k)).unwrap();
        s.lines().filter(|l| !l.is_empty()).map(crate::json::J::parse).collect()
    }
}

struct Slot {
    beat: AtomicU64,
    /// the thread that last ran a case
    tid: AtomicU64,
    case: Mutex<String>,
    file: Option<std::fs::File>,
}

/// Collects violations and counters over all threads.
pub struct Report {
    prop: String,
    slots: Vec<Slot>,
    found: AtomicUsize,
    max: usize,
    evals: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    stop: AtomicBool,
    start: Instant,
}

thread_local! {
    pub static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

thread_local! {
    /// The number of this thread, or 0.
    static TID: u64 = std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name()?.to_str()?.parse().ok())
        .unwrap_or(0);
}

/// The processor time a thread of this process has used, in seconds.
fn cpu_time(tid: u64) -> f64 {
    let ticks = || -> Option<u64> {
        let stat = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
        let mut fields = stat.rsplit_once(')')?.1.split_whitespace().skip(11);
        Some(fields.next()?.parse::<u64>().ok()? + fields.next()?.parse::<u64>().ok()?)
    };
    // (a tick is a hundredth of a second)
    ticks().unwrap_or(0) as f64 / 100.0
}

pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl Report {
    pub fn new(args: &Args, threads: usize) -> Arc<Report> {
        std::panic::set_hook(Box::new(|info| {
            let s = info.to_string();
            PANIC.with(|p| *p.borrow_mut() = s);
        }));
        let r = Arc::new(Report {
            prop: args.get("prop").to_string(),
            slots: (0..threads)
                .map(|i| Slot {
                    beat: AtomicU64::new(0),
                    tid: AtomicU64::new(0),
                    case: Mutex::new(String::new()),
                    file: args.opt("cases").map(|d| {
                        std::fs::File::create(format!("{d}/{i}")).expect("case file")
                    }),
                })
                .collect(),
            found: AtomicUsize::new(0),
            max: 5,
            evals: AtomicU64::new(0),
            distinct: Mutex::new(HashSet::new()),
            counters: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(Vec::new()),
            stop: AtomicBool::new(false),
            start: Instant::now(),
        });
        let w = r.clone();
        let limit: u64 = args.opt("hang").map(|h| h.parse().unwrap()).unwrap_or(100);
        std::thread::spawn(move || {
            // a case may take so much processor time, however busy the machine is
            let mut last: Vec<(u64, f64, Instant)> = w.slots.iter().map(|_| (0, 0.0, Instant::now())).collect();
            let mut longest = 0.0;
            loop {
                std::thread::sleep(Duration::from_millis(500));
                for (i, s) in w.slots.iter().enumerate() {
                    let b = s.beat.load(SeqCst);
                    let cpu = cpu_time(s.tid.load(SeqCst));
                    // a beat of 0 means not started, u64::MAX finished
                    if b != last[i].0 || b == 0 || b == u64::MAX || cpu < last[i].1 {
                        last[i] = (b, cpu, Instant::now());
                        continue;
                    }
                    let spent = cpu - last[i].1;
                    if spent > longest && std::env::var("VERIF_SLOW").is_ok() {
                        longest = spent;
                        let case: String = s.case.lock().map(|c| c.chars().take(200).collect()).unwrap_or_default();
                        eprintln!("{spent:.1}s in {case}");
                    }
                    if spent > limit as f64 || last[i].2.elapsed() > Duration::from_secs(4 * limit) {
                        let case = s.case.lock().map(|c| c.clone()).unwrap_or_default();
                        w.violation("does not terminate", &case);
                        w.finish_stats();
                        std::process::exit(1);
                    }
                }
            }
        });
        r
    }

    /// Announces the case about to be run by a thread.
    pub fn case(&self, thread: usize, desc: impl FnOnce() -> String) {
        let s = &self.slots[thread];
        s.tid.store(TID.with(|t| *t), SeqCst);
        s.beat.fetch_add(1, SeqCst);
        self.evals.fetch_add(1, Relaxed);
        let mut d = desc();
        if d.len() > 3000 {
            let mut n = 3000;
            while !d.is_char_boundary(n) {
                n -= 1;
            }
            d.truncate(n);
        }
        if let Some(f) = &s.file {
            use std::os::unix::fs::FileExt;
            let mut line = d.replace('\n', " ");
            line.push('\n');
            let _ = f.write_at(line.as_bytes(), 0);
        }
        *s.case.lock().unwrap() = d;
    }
    pub fn beat(&self, thread: usize) {
        self.slots[thread].beat.fetch_add(1, SeqCst);
    }

    /// Counts a distinct non-trivial case by a hash of what makes it distinct.
    pub fn distinct(&self, h: u64) {
        let mut d = self.distinct.lock().unwrap();
        if d.len() < 4_000_000 {
            d.insert(h);
        }
    }
    pub fn distinct_all(&self, hs: &HashSet<u64>) {
        self.distinct.lock().unwrap().extend(hs.iter().copied());
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counters.lock().unwrap().entry(k.to_string()).or_insert(0) += n;
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 6 {
            let mut s = s();
            if s.len() > 400 {
                let mut n = 400;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
            }
            v.push(s);
        }
    }
    pub fn violation(&self, what: &str, case: &str) {
        let n = self.found.fetch_add(1, SeqCst);
        if n < self.max {
            println!(
                "MISMATCH {{\"property\": {}, \"what\": {}, \"case\": {}}}",
                quote(&self.prop),
                quote(what),
                quote(case)
            );
        }
        if n + 1 >= self.max {
            self.stop.store(true, SeqCst);
        }
    }
    /// Reports a listed finding (decided by check.py) rather than a new violation.
    pub fn finding(&self, key: &str, case: &str) {
        let mut c = self.counters.lock().unwrap();
        let n = c.entry(format!("finding:{key}")).or_insert(0);
        *n += 1;
        if *n == 1 {
            println!(
                "FINDING {{\"property\": {}, \"key\": {}, \"case\": {}}}",
                quote(&self.prop),
                quote(key),
                quote(case)
            );
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    fn finish_stats(&self) {
        let mut o = String::new();
        for (k, v) in self.counters.lock().unwrap().iter() {
            o.push_str(&format!(", {}: {}", quote(k), v));
        }
        let samples: Vec<String> =
            self.samples.lock().unwrap().iter().map(|s| quote(s)).collect();
        println!(
            "STATS {{\"evaluations\": {}, \"distinct\": {}, \"violations\": {}, \"samples\": [{}]{}}}",
            self.evals.load(SeqCst),
            self.distinct.lock().unwrap().len(),
            self.found.load(SeqCst),
            samples.join(", "),
            o
        );
    }
    pub fn finish(&self) -> ! {
        for s in &self.slots {
            s.beat.store(u64::MAX, SeqCst);
        }
        self.finish_stats();
        let n = self.found.load(SeqCst);
        std::process::exit(if n > 0 { 1 } else { 0 });
    }
    pub fn done(&self, thread: usize) {
        self.slots[thread].beat.store(u64::MAX, SeqCst);
    }
}

/// Runs the jobs on all threads.
pub fn parallel(report: &Arc<Report>, threads: usize, jobs: usize, f: impl Fn(usize, usize) + Sync) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for t in 0..threads {
            let next = &next;
            let f = &f;
            let report = report.clone();
            s.spawn(move || {
                loop {
                    let j = next.fetch_add(1, SeqCst);
                    if j >= jobs || report.stopped() {
                        break;
                    }
                    f(t, j);
                }
                report.done(t);
            });
        }
    });
}

/// Runs a closure, turning a panic into an error with its message.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

/// Writes recorded lines, and how to show them, for TLC to validate.
pub fn save(name: &str, out: Vec<(String, String)>) {
    if let Ok(dir) = std::env::var("VERIF_WORK") {
        let lines: String = out.iter().map(|l| format!("{}\n", l.0)).collect();
        std::fs::write(format!("{dir}/{name}.ndjson"), lines).unwrap();
        let show: String = out.iter().map(|l| format!("{}\n", l.1.replace('\n', " "))).collect();
        std::fs::write(format!("{dir}/{name}.show"), show).unwrap();
    }
}
