use serde_json::{json, Value};
use std::io::BufRead;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Result accumulator; printed as one JSON line at the end of a run.
pub struct Report {
    pub cases: u64,
    pub steps: u64,
    pub violations: Vec<Value>,
    pub nviol: u64,
    pub stats: std::collections::BTreeMap<String, u64>,
}
impl Report {
    pub fn new() -> Self {
        Report { cases: 0, steps: 0, violations: vec![], nviol: 0, stats: Default::default() }
    }
    /// `key` is a stable signature (for known findings), `what` a human-readable description.
    pub fn violation(&mut self, key: &str, what: String, case: &Value) {
        self.nviol += 1;
        let same = self.violations.iter().filter(|v| v["key"] == key).count();
        if same < 3 && self.violations.len() < 200 {
            self.violations.push(json!({"key": key, "what": what, "case": case}));
        }
    }
    pub fn stat(&mut self, k: &str) {
        *self.stats.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn finish(mut self) {
        for (k, n) in STATS.lock().unwrap().iter() { *self.stats.entry(k.to_string()).or_insert(0) += n; }
        println!("{}", json!({"cases": self.cases, "steps": self.steps, "nviol": self.nviol,
            "violations": self.violations, "stats": self.stats}));
    }
}

static STATS: std::sync::Mutex<std::collections::BTreeMap<&'static str, u64>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
pub fn stat(k: &'static str) { *STATS.lock().unwrap().entry(k).or_insert(0) += 1 }
pub fn lines(file: &str) -> impl Iterator<Item = Value> {
    let f = std::fs::File::open(file).unwrap_or_else(|e| {
        eprintln!("{file}: {e}");
        std::process::exit(2)
    });
    std::io::BufReader::with_capacity(1 << 20, f).lines().filter_map(|l| {
        let l = l.unwrap();
        if l.trim().is_empty() {
            None
        } else {
            let p = |l: &str| -> Value {
                serde_json::from_str(l).unwrap_or_else(|e| {
                    eprintln!("bad json line: {e}: {}", &l[..l.len().min(200)]);
                    std::process::exit(2)
                })
            };
            // TLC's CSVWrite emits the JSON text as a quoted string
            Some(match p(&l) { Value::String(inner) => p(&inner), v => v })
        }
    })
}

thread_local!(static QUIET: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
/// Panics of the code under test are data; a panic of the harness itself is a tool error (exit 2).
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if QUIET.with(|q| q.get()) == 0 {
            eprintln!("harness panic: {info}");
            std::process::exit(2);
        }
    }));
}

/// Run code under test; a panic becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n.max(1) }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as u64) as i64 }
}
pub fn s<'a>(v: &'a Value, k: &str) -> &'a str { v[k].as_str().unwrap_or("") }
pub fn i(v: &Value, k: &str) -> i64 { v[k].as_i64().unwrap_or(0) }
