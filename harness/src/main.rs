//! Interpreter of operation scripts over the real library.
//!
//! usage: harness SCRIPT OUT
//!
//! Every line of SCRIPT is a JSON object with an "op" and its arguments.  The same line is written to
//! OUT with two more fields: "st" ("ok", "panic", "hang", "large" for a result of more than 8 MB) and "r" (the observed result; for operations
//! with a destination register, the complete projected value of that register after the operation).
//! Nothing here knows what a correct result is: that is decided by TLC against the specification.
mod json;
mod ops;

use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

struct Shared { line: String, since: Option<Instant>, out: BufWriter<File> }

fn rss_bytes() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map(|p| p * 4096).unwrap_or(0)
}

fn emit(out: &mut BufWriter<File>, line: &str, st: &str, r: &str) {
    let base = line.trim_end();
    let base = &base[..base.len() - 1]; // drop the closing brace
    writeln!(out, "{},\"st\":\"{}\",\"r\":{}}}", base, st, r).unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let limit: u64 = std::env::var("HARNESS_OP_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(100);
    let mem: u64 = std::env::var("HARNESS_MEM_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(3_000_000_000);
    let script = BufReader::new(File::open(&args[1]).expect("script"));
    let out = BufWriter::with_capacity(1 << 16, File::create(&args[2]).expect("out"));
    // the library prints progress on stdout; the wrapper discards it
    std::panic::set_hook(Box::new(|_| {}));
    let shared = Arc::new(Mutex::new(Shared { line: String::new(), since: None, out }));
    let watch = shared.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let mut g = watch.lock().unwrap();
        if let Some(t) = g.since {
            if t.elapsed() > Duration::from_secs(limit) || rss_bytes() > mem {
                let line = g.line.clone();
                emit(&mut g.out, &line, "hang", "[]");
                g.out.flush().unwrap();
                std::process::exit(0);
            }
        }
    });
    let sh = shared.clone();
    // large stack: deep recursion is not by itself a failure
    let worker = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
        let mut m = ops::Machine::new();
        for line in script.lines() {
            let line = line.unwrap();
            if line.trim().is_empty() { continue; }
            let j = json::parse(&line);
            {
                let mut g = sh.lock().unwrap();
                g.line = line.clone();
                g.since = Some(Instant::now());
                // so that an abort of the process still leaves everything recorded so far
                g.out.flush().unwrap();
            }
            let res = catch_unwind(AssertUnwindSafe(|| m.exec(&j)));
            let mut g = sh.lock().unwrap();
            g.since = None;
            match res {
                Ok(r) if r.len() > 8_000_000 => emit(&mut g.out, &line, "large", "[]"),
                Ok(r) => emit(&mut g.out, &line, "ok", &r),
                Err(e) => {
                    let msg = e.downcast_ref::<String>().cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    if msg.starts_with("script:") {
                        eprintln!("{} in {}", msg, line);
                        std::process::exit(3);
                    }
                    emit(&mut g.out, &line, "panic", "[]")
                }
            }
        }
        sh.lock().unwrap().out.flush().unwrap();
    }).unwrap();
    if worker.join().is_err() { std::process::exit(3); }
}
