use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static GUARDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit("/src/").next().unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        if !GUARDED.with(|g| g.get()) {
            eprintln!("harness panic: {} at {}", msg, loc);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// Runs code under test; a panic is data.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let outer = GUARDED.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(outer));
    r.map_err(|_| {
        let m = LAST_PANIC.with(|p| p.borrow().clone());
        if m.contains(crate::disk::BUDGET_MSG) {
            "endless: device access budget exceeded".to_string()
        } else {
            format!("panic: {}", m)
        }
    })
}

/// Variant name of an error (Debug output up to the first delimiter).
pub fn ename<E: std::fmt::Debug>(e: &E) -> String {
    let s = format!("{:?}", e);
    s.split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap_or("").to_string()
}

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

/// What a run of the harness reports to the driver.
#[derive(Default)]
pub struct Report {
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Value>,
    pub nviol: u64,
}
impl Report {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn sample(&mut self, max: usize, v: impl FnOnce() -> Value) {
        if self.samples.len() < max {
            self.samples.push(v());
        }
    }
    pub fn violation(&mut self, what: &str, detail: Value) {
        self.nviol += 1;
        // Keep a few of every kind.
        let same = self.violations.iter().filter(|v| v["what"] == what && !v["detail"]["finding"].is_string()).count();
        let n = if detail["finding"].is_string() { 1 } else { 3 };
        let same = if n == 1 {
            self.violations.iter().filter(|v| v["what"] == what && v["detail"]["finding"] == detail["finding"]).count()
        } else {
            same
        };
        if same < n && self.violations.len() < 200 {
            self.violations.push(json!({"what": what, "detail": detail}));
        }
    }
    pub fn merge(&mut self, o: Report) {
        for (k, v) in o.counts {
            self.add(&k, v);
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
        let n = self.nviol + o.nviol;
        for v in o.violations {
            self.violation(v["what"].as_str().unwrap(), v["detail"].clone());
        }
        self.nviol = n;
    }
    pub fn write(&self, path: &str) {
        let v = json!({"counts": self.counts, "samples": self.samples, "violations": self.violations, "nviol": self.nviol});
        std::fs::write(path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    }
}

pub fn read_ndjson(path: &str) -> Vec<Value> {
    let t = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("cannot read {}: {}", path, e));
    // (TLC's workers print in any order; the number of a case is to be the same in every run)
    let mut lines: Vec<&str> = t.lines().filter(|l| !l.trim().is_empty()).collect();
    lines.sort_unstable();
    lines
        .into_iter()
        .map(|l| serde_json::from_str(l).unwrap_or_else(|e| panic!("bad json in {}: {}: {}", path, e, l)))
        .collect()
}

pub struct NdWriter {
    f: std::io::BufWriter<std::fs::File>,
    pub lines: u64,
}
impl NdWriter {
    pub fn create(path: &str) -> NdWriter {
        NdWriter { f: std::io::BufWriter::new(std::fs::File::create(path).unwrap()), lines: 0 }
    }
    pub fn put(&mut self, v: &Value) {
        serde_json::to_writer(&mut self.f, v).unwrap();
        self.f.write_all(b"\n").unwrap();
        self.lines += 1;
    }
}

/// Base-2^16 limbs, least significant first, as the TLA+ specifications represent 64-bit numbers.
pub fn limbs(v: u64) -> Value {
    json!([v & 0xFFFF, (v >> 16) & 0xFFFF, (v >> 32) & 0xFFFF, (v >> 48) & 0xFFFF])
}
pub fn from_limbs(v: &Value) -> u64 {
    let a = v.as_array().unwrap();
    let mut r: u128 = 0;
    for (i, x) in a.iter().enumerate() {
        r |= (x.as_u64().unwrap() as u128) << (16 * i);
    }
    u64::try_from(r).expect("limbs exceed 64 bits")
}
pub fn ji(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("int expected: {}", v))
}
pub fn ja(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("array expected: {}", v))
}
pub fn js(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("string expected: {}", v))
}
pub fn jb(v: &Value) -> bool {
    v.as_bool().unwrap_or_else(|| panic!("bool expected: {}", v))
}

/// Splits work over the cores; every worker gets its own report.
pub fn parallel<T: Send + Sync>(items: &[T], f: impl Fn(usize, &T, &mut Report) + Sync) -> Report {
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let mut total = Report::default();
    std::thread::scope(|s| {
        let mut hs = vec![];
        for _ in 0..n {
            hs.push(s.spawn(|| {
                let mut r = Report::default();
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if i >= items.len() {
                        break;
                    }
                    f(i, &items[i], &mut r);
                }
                r
            }));
        }
        for h in hs {
            total.merge(h.join().expect("harness worker failed"));
        }
    });
    total
}
