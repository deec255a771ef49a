//! Replays specification behaviours in the real litcheck crates and records what they do.
//! One JSON case per stdin line, one JSON observation per stdout line, in the same order.
mod core_modes;
mod fc;
mod lit_modes;
mod recorder;

use serde_json::{Value, json};
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, Ordering};

/// Monotonic count of finished cases: the watchdog ends the process when it stands still.
static PROGRESS: AtomicU64 = AtomicU64::new(0);

fn main() {
    let me = std::env::args_os().next().unwrap_or_default();
    if std::path::Path::new(&me).file_name() == Some("r".as_ref()) {
        recorder::run();
    }
    if std::path::Path::new(&me).file_name() == Some("say".as_ref()) {
        recorder::say();
    }
    let mode = std::env::args().nth(1).expect("mode");
    let f: fn(&Value) -> Value = match mode.as_str() {
        "fc" => fc::run_case,
        "num" => fc::num_case,
        "ppt" => core_modes::path_tree_case,
        "src" => core_modes::source_case,
        "mgr" => core_modes::manager_case,
        "sel" => core_modes::selection_case,
        "sym" => core_modes::symbol_case,
        "inp" => core_modes::input_case,
        "bool" => lit_modes::bool_case,
        other => panic!("unknown mode {other}"),
    };
    std::panic::set_hook(Box::new(|_| {}));
    let stuck: u64 = std::env::var("VH_CASE_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(20);
    std::thread::spawn(move || {
        let mut last = 0;
        let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = PROGRESS.load(Ordering::Relaxed);
            if now == last { same += 1 } else { same = 0; last = now }
            if same > stuck {
                std::process::exit(86);
            }
        }
    });
    // A worker with a known, generous stack: what overflows it is not a shallow input.
    let worker = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let stdin = std::io::stdin();
            let stdout = std::io::stdout();
            for line in stdin.lock().lines() {
                let line = line.expect("stdin");
                if line.is_empty() {
                    continue;
                }
                let case: Value = serde_json::from_str(&line).expect("case json");
                let id = case["id"].clone();
                let mut obs = match catch_unwind(AssertUnwindSafe(|| f(&case))) {
                    Ok(v) => v,
                    Err(p) => {
                        let msg = p
                            .downcast_ref::<String>()
                            .cloned()
                            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_default();
                        json!({"verdict": "panic", "msg": msg})
                    }
                };
                obs["id"] = id;
                let mut out = stdout.lock();
                serde_json::to_writer(&mut out, &obs).unwrap();
                out.write_all(b"\n").unwrap();
                out.flush().unwrap();
                PROGRESS.fetch_add(1, Ordering::Relaxed);
            }
        })
        .unwrap();
    worker.join().unwrap();
}
