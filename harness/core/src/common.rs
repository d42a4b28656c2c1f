//! Reads cases (one JSON object per line) from stdin, executes them, prints them back with the recorded events.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

static CASE: AtomicU64 = AtomicU64::new(0);

/// The events recorded for one case.
pub struct Rec(pub RefCell<Vec<Value>>);
impl Rec {
    pub fn ev(&self, v: Value) {
        self.0.borrow_mut().push(v)
    }
}

pub fn run_main<F: Fn(&str, &Value, &Rec)>(dispatch: F) {
    std::panic::set_hook(Box::new(|_| {}));
    let sub = std::env::args().nth(1).unwrap_or_default();
    let secs: u64 = std::env::var("HARNESS_CASE_TIMEOUT").ok().and_then(|s| s.parse().ok()).unwrap_or(20);
    std::thread::spawn(move || {
        let mut seen = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let c = CASE.load(Ordering::SeqCst);
            if c != seen.0 {
                seen = (c, Instant::now());
            } else if c != 0 && seen.1.elapsed() > Duration::from_secs(secs) {
                std::process::exit(77);
            }
        }
    });
    let mut n = 0;
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => std::process::exit(64),
        };
        if line.trim().is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).unwrap_or_else(|_| std::process::exit(64));
        n += 1;
        CASE.store(n, Ordering::SeqCst);
        let rec = Rec(RefCell::new(Vec::new()));
        let r = catch_unwind(AssertUnwindSafe(|| dispatch(&sub, &case, &rec)));
        let mut evs = rec.0.into_inner();
        if let Err(e) = r {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            if msg.starts_with("HARNESS:") {
                std::process::exit(64);
            }
            evs.push(json!({"op": "panic", "msg": msg}));
        }
        let mut o = case.clone();
        o["ev"] = Value::Array(evs);
        let mut h = out.lock();
        writeln!(h, "{}", o).unwrap();
        h.flush().unwrap();
    }
    CASE.store(0, Ordering::SeqCst);
}

pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("HARNESS: string {} in {}", k, v))
}
pub fn i(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("HARNESS: int {} in {}", k, v))
}
pub fn u(v: &Value, k: &str) -> usize {
    i(v, k) as usize
}
pub fn a<'a>(v: &'a Value, k: &str) -> &'a Vec<Value> {
    v[k].as_array().unwrap_or_else(|| panic!("HARNESS: array {} in {}", k, v))
}
pub fn ints(v: &Value) -> Vec<i64> {
    v.as_array().expect("HARNESS: ints").iter().map(|x| x.as_i64().expect("HARNESS: int")).collect()
}
pub fn usizes(v: &Value) -> Vec<usize> {
    ints(v).into_iter().map(|x| x as usize).collect()
}
pub fn strings(v: &Value) -> Vec<String> {
    v.as_array().expect("HARNESS: strs").iter().map(|x| x.as_str().expect("HARNESS: str").to_string()).collect()
}
pub fn opt<T: Into<Value>>(o: Option<T>) -> Value {
    match o {
        Some(x) => Value::Array(vec![x.into()]),
        None => json!([]),
    }
}
