//! Runs the cases of an input file on a pool of threads.
use serde_json::Value;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! {
    static LAST: RefCell<String> = RefCell::new(String::new());
}

/// Panics of the code under test are data: keep the message, print nothing.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info);
        LAST.with(|x| *x.borrow_mut() = msg);
    }));
}

/// Runs f; a panic is returned as its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(LAST.with(|x| x.borrow().clone())),
    }
}

/// Number of cases in which the client stopped talking where the other side
/// waits for it. Each costs seconds; after a few the rest is not worth it.
pub static HANGS: AtomicUsize = AtomicUsize::new(0);
pub const MAX_HANGS: usize = 24;

pub fn run_all(input: &str, output: &str, threads: usize, f: fn(&Value) -> Value) {
    let lines: Vec<String> = BufReader::new(File::open(input).expect("input"))
        .lines()
        .map(|x| x.unwrap())
        .filter(|x| !x.trim().is_empty())
        .collect();
    let lines = Arc::new(lines);
    let next = Arc::new(AtomicUsize::new(0));
    let out = Arc::new(Mutex::new(BufWriter::new(File::create(output).expect("output"))));
    // A case that never comes back ends the process
    let limit: u64 = std::env::var("CDCHECK_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(60);
    let running: Arc<Mutex<HashMap<usize, (Value, Instant)>>> = Arc::new(Mutex::new(HashMap::new()));
    {
        let (running, out) = (running.clone(), out.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let late = running.lock().unwrap().values().find(|x| x.1.elapsed() > Duration::from_secs(limit)).map(|x| x.0.clone());
            if let Some(id) = late {
                let mut o = out.lock().unwrap();
                let _ = writeln!(o, "{}", serde_json::json!({"id": id, "obs": "hang"}));
                let _ = o.flush();
                std::process::exit(3);
            }
        });
    }
    let mut handles = Vec::new();
    for _ in 0..threads {
        let (lines, next, out, running) = (lines.clone(), next.clone(), out.clone(), running.clone());
        let h = std::thread::Builder::new()
            .stack_size(if threads > 100 { 4 << 20 } else { 32 << 20 })
            .spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= lines.len() {
                    break;
                }
                let case: Value = serde_json::from_str(&lines[i]).expect("json");
                let id = case.get("id").cloned().unwrap_or(Value::from(i));
                running.lock().unwrap().insert(i, (id.clone(), Instant::now()));
                let obs = if HANGS.load(Ordering::SeqCst) > MAX_HANGS {
                    serde_json::json!("skipped")
                } else {
                    match guard(|| f(&case)) {
                        Ok(x) => x,
                        Err(m) => serde_json::json!({ "harness_panic": m }),
                    }
                };
                running.lock().unwrap().remove(&i);
                let line = serde_json::json!({"id": id, "obs": obs}).to_string();
                let mut o = out.lock().unwrap();
                o.write_all(line.as_bytes()).unwrap();
                o.write_all(b"\n").unwrap();
                o.flush().unwrap();
            })
            .unwrap();
        handles.push(h);
    }
    for h in handles {
        h.join().unwrap();
    }
    out.lock().unwrap().flush().unwrap();
}

/// Bytes from a JSON array of numbers; 256 * n + b stands for n bytes b.
pub fn bytes(v: &Value) -> Vec<u8> {
    match v {
        Value::Array(a) => {
            let mut out = Vec::with_capacity(a.len());
            for x in a {
                let x = x.as_u64().unwrap();
                let n = if x < 256 { 1 } else { x / 256 };
                out.resize(out.len() + n as usize, (x % 256) as u8);
            }
            out
        }
        Value::String(s) => s.as_bytes().to_vec(),
        Value::Null => Vec::new(),
        _ => panic!("bytes: {}", v),
    }
}
