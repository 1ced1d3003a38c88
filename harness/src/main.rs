//! Drives doctor-syn with scenarios written by the TLA+ specification.
//!
//! harness SCENARIOS RESULTS [SECONDS]
//!
//! Each line of SCENARIOS is `id TAB kind TAB field TAB field ...`; one JSON line per scenario is written
//! to RESULTS, in the order of the scenarios. A panic or a hang of the code under test is a result like
//! any other: {"st":"panic"} or {"st":"hang"}.
mod ast;
mod kinds;

use std::io::Write;
use std::panic;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn unescape(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => out.push('\n'),
                Some('t') => out.push('\t'),
                Some(c) => out.push(c),
                None => {}
            }
        } else {
            out.push(c);
        }
    }
    out
}

struct Shared {
    lines: Vec<String>,
    next: AtomicUsize,
    results: Mutex<Vec<Option<String>>>,
    done: AtomicUsize,
}

fn id_of(line: &str) -> &str {
    line.split('\t').next().unwrap_or("0")
}

fn work(sh: Arc<Shared>, slot: Arc<Mutex<Option<(usize, Instant)>>>) {
    loop {
        let n = sh.next.fetch_add(1, Ordering::SeqCst);
        if n >= sh.lines.len() {
            *slot.lock().unwrap() = None;
            return;
        }
        *slot.lock().unwrap() = Some((n, Instant::now()));
        let line = &sh.lines[n];
        let fields: Vec<String> = line.split('\t').map(unescape).collect();
        let body = panic::catch_unwind(panic::AssertUnwindSafe(|| kinds::run(&fields[1], &fields[2..])))
            .unwrap_or_else(|_| "\"st\":\"panic\"".to_string());
        let mut res = sh.results.lock().unwrap();
        if res[n].is_none() {
            res[n] = Some(format!("{{\"id\":{},{}}}", fields[0], body));
            sh.done.fetch_add(1, Ordering::SeqCst);
        } else {
            return; // given up on by the watchdog
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[1]).expect("scenarios");
    let limit = Duration::from_secs(args.get(3).and_then(|s| s.parse().ok()).unwrap_or(30));
    let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
    panic::set_hook(Box::new(|_| {}));
    let n = lines.len();
    let sh = Arc::new(Shared {
        lines,
        next: AtomicUsize::new(0),
        results: Mutex::new(vec![None; n]),
        done: AtomicUsize::new(0),
    });
    let mut slots = Vec::new();
    let spawn = |slots: &mut Vec<Arc<Mutex<Option<(usize, Instant)>>>>| {
        let slot = Arc::new(Mutex::new(None));
        slots.push(slot.clone());
        let sh = sh.clone();
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || work(sh, slot))
            .expect("thread");
    };
    for _ in 0..8 {
        spawn(&mut slots);
    }
    while sh.done.load(Ordering::SeqCst) < n {
        std::thread::sleep(Duration::from_millis(5));
        let mut stuck = Vec::new();
        for (k, s) in slots.iter().enumerate() {
            if let Some((n, t)) = *s.lock().unwrap() {
                if t.elapsed() > limit {
                    stuck.push((k, n));
                }
            }
        }
        for (k, n) in stuck {
            let mut res = sh.results.lock().unwrap();
            if res[n].is_none() {
                res[n] = Some(format!("{{\"id\":{},\"st\":\"hang\"}}", id_of(&sh.lines[n])));
                sh.done.fetch_add(1, Ordering::SeqCst);
                drop(res);
                slots.remove(k);
                spawn(&mut slots);
                break;
            }
        }
    }
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("results"));
    for r in sh.results.lock().unwrap().iter() {
        writeln!(out, "{}", r.as_ref().unwrap()).unwrap();
    }
    out.flush().unwrap();
    std::process::exit(0);
}
