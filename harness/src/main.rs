//! Worker: reads one JSON job per line on stdin, writes one JSON result per
//! line on stdout.  It decides nothing; the TLA+ specifications judge the
//! recorded observations.
mod capif;
mod chan;
mod cfg;
mod cli;
mod content;
mod dec;
mod headers;
mod ivff;
mod mem;
mod misc;
mod obu;
mod session;
mod twopass;

use serde_json::{json, Value};
use std::io::{BufRead, Write};

#[global_allocator]
static HEAP: mem::Counting = mem::Counting;

fn dispatch(job: &Value) -> Value {
    // the encoder reads its CPU level when it is created
    match job["cpu"].as_str() {
        Some(c) => std::env::set_var("RAV1E_CPU_TARGET", c),
        None => std::env::remove_var("RAV1E_CPU_TARGET"),
    }
    match job["kind"].as_str().unwrap_or("enc") {
        "enc" => session::run(job),
        "tiling" => misc::tiling(job),
        "config" => misc::config(job),
        "headers" => headers::run(job),
        "capi" => capif::run(job),
        "chan" => chan::run(job),
        "cleaks" => capif::leaks(job),
        "copts" => capif::options_job(job),
        "climake" => cli::make(job),
        "clilook" => cli::look(job),
        "climeasure" => cli::measure(job),
        "ivf" => ivff::run(job),
        "hold" => mem::run(job),
        "twopass" => twopass::run(job),
        "summaries" => twopass::summaries(job),
        "multi" => {
            // several encoders at the same time in one process
            let js: Vec<Value> = job["jobs"].as_array().unwrap().clone();
            let hs: Vec<_> = js.into_iter().map(|j| std::thread::spawn(move || session::run(&j))).collect();
            let rs: Vec<Value> = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| json!({"harness_panic": "thread"}))).collect();
            json!({"res": rs})
        }
        k => json!({"error": format!("unknown job kind {k}")}),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("VH_PANIC").is_some() { eprintln!("{i}") }
        session::PANICS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        *session::WHERE.lock().unwrap() = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    }));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() { continue; }
        let job: Value = serde_json::from_str(&line).expect("job json");
        let mut r = match session::guard(|| dispatch(&job)) {
            Ok(r) => r,
            Err(m) => json!({"harness_panic": m}),
        };
        r["id"] = job["id"].clone();
        let mut o = stdout.lock();
        serde_json::to_writer(&mut o, &r).unwrap();
        o.write_all(b"\n").unwrap();
        o.flush().unwrap();
    }
}
