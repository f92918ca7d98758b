//! apfloat-harness gen <property> <seed> <quick|thorough> <chunks> <outdir>: record traces of the real code
//! apfloat-harness replay <file>: re-run the inputs of recorded events and print the outcome
mod big;
mod fmts;
mod gen;
mod rng;
mod run;
mod val;

use std::fs::File;
use std::io::{BufWriter, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Duration;

const WORKERS: usize = 8;
/// How long a call may take (the slowest take half a second); a suspected hang is confirmed alone, with more time.
const HANG_SECONDS: u64 = 20;
const CONFIRM_SECONDS: u64 = 60;
struct Slot {
    tick: AtomicU64, // 0: idle
    current: Mutex<String>,
}
static SLOTS: [Slot; WORKERS] = [const { Slot { tick: AtomicU64::new(0), current: Mutex::new(String::new()) } }; WORKERS];

/// Runs the event; a panic of the code under test is an outcome like any other.
pub fn outcome(e: &run::Ev) -> String {
    match catch_unwind(AssertUnwindSafe(|| run::run(e))) {
        Ok(s) => s,
        Err(p) => panicked(p),
    }
}
fn panicked(p: Box<dyn std::any::Any + Send>) -> String {
    let m = p
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default();
    let m: String = m.chars().take(60).map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect();
    format!("panic=1 msg=~{m}")
}

/// The same, watched: `inp` is what is reported if it never returns.
pub fn watched(slot: usize, inp: &str, f: impl FnOnce() -> String) -> String {
    {
        let mut c = SLOTS[slot].current.lock().unwrap();
        c.clear();
        c.push_str(inp);
    }
    SLOTS[slot].tick.fetch_add(1, Ordering::SeqCst);
    f()
}

fn watchdog(hang_file: String, limit: u64) {
    std::thread::spawn(move || {
        let mut last = [0; WORKERS];
        let mut still = [0; WORKERS];
        loop {
            std::thread::sleep(Duration::from_secs(1));
            for i in 0..WORKERS {
                let t = SLOTS[i].tick.load(Ordering::SeqCst);
                still[i] = if t == last[i] && t != 0 { still[i] + 1 } else { 0 };
                last[i] = t;
                if still[i] >= limit {
                    let c = SLOTS[i].current.lock().unwrap();
                    let _ = std::fs::write(&hang_file, format!("{} hang=1\n", c));
                    eprintln!("HANG {}", c);
                    std::process::exit(3);
                }
            }
        }
    });
}

/// Runs `job(i, slot)` for i in 0..n on all workers.
fn parallel(n: usize, job: impl Fn(usize, usize) + Sync) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for slot in 0..WORKERS {
            let (next, job) = (&next, &job);
            s.spawn(move || {
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    job(i, slot);
                }
                SLOTS[slot].tick.store(0, Ordering::SeqCst);
            });
        }
    });
}

/// Runs steps of histories one after the other on live values.
fn run_steps(events: &[run::Ev], mut out: BufWriter<File>, slot: usize, current: &File) {
    let mut bank = run::Bank::new();
    for e in events {
        let inp = run::inputs(e);
        let _ = current.write_all_at(format!("{inp}\n\n").as_bytes(), 0);
        let o = watched(slot, &inp, || match catch_unwind(AssertUnwindSafe(|| run::step(e, &mut bank))) {
            Ok(s) => s,
            Err(p) => panicked(p),
        });
        writeln!(out, "{inp} {o}").unwrap();
    }
    out.flush().unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match args.get(1).map(|s| s.as_str()) {
        Some("gen") => {
            let (prop, seed, tier) = (&args[2], args[3].parse::<u64>().unwrap(), &args[4]);
            let chunks: usize = args[5].parse().unwrap();
            let dir = &args[6];
            watchdog(format!("{dir}/hang"), HANG_SECONDS);
            let mut events: Vec<Vec<run::Ev>> = vec![Vec::new(); chunks];
            let mut n = 0usize;
            let mut g = gen::Gen::new(seed, prop, tier);
            g.property(prop, &mut |e| {
                events[n % chunks].push(e);
                n += 1;
            });
            let current: Vec<File> = (0..WORKERS).map(|i| File::create(format!("{dir}/current_{i}")).unwrap()).collect();
            parallel(chunks, |i, slot| {
                let mut out = BufWriter::new(File::create(format!("{dir}/chunk_{i}")).unwrap());
                for e in &events[i] {
                    let inp = run::inputs(e);
                    // what was under way, should the process die
                    let _ = current[slot].write_all_at(format!("{inp}\n\n").as_bytes(), 0);
                    let o = watched(slot, &inp, || outcome(e));
                    writeln!(out, "{inp} {o}").unwrap();
                }
                out.flush().unwrap();
            });
            println!("{n}");
        }
        Some("hist") => {
            // histories: each starts with "begin" and stays within one chunk
            let (prop, seed, tier) = (&args[2], args[3].parse::<u64>().unwrap(), &args[4]);
            let chunks: usize = args[5].parse().unwrap();
            let dir = &args[6];
            watchdog(format!("{dir}/hang"), HANG_SECONDS);
            let mut g = gen::Gen::new(seed, prop, tier);
            let mut events: Vec<Vec<run::Ev>> = vec![Vec::new(); chunks];
            let hs = g.histories();
            let n = hs.len();
            for (i, h) in hs.into_iter().enumerate() {
                events[i % chunks].extend(h);
            }
            let current: Vec<File> = (0..WORKERS).map(|i| File::create(format!("{dir}/current_{i}")).unwrap()).collect();
            parallel(chunks, |i, slot| {
                let out = BufWriter::new(File::create(format!("{dir}/chunk_{i}")).unwrap());
                run_steps(&events[i], out, slot, &current[slot]);
            });
            println!("{n}");
        }
        Some("exec") => {
            // programs given as step lines
            let dir = &args[3];
            watchdog(format!("{dir}/hang"), HANG_SECONDS);
            let text = std::fs::read_to_string(&args[2]).unwrap();
            let events: Vec<run::Ev> = text.lines().filter(|l| l.starts_with("op=")).map(run::parse_event).collect();
            let current = File::create(format!("{dir}/current_0")).unwrap();
            run_steps(&events, BufWriter::new(File::create(format!("{dir}/chunk_0")).unwrap()), 0, &current);
        }
        Some("replay") => {
            watchdog("/dev/null".into(), CONFIRM_SECONDS);
            for line in std::fs::read_to_string(&args[2]).unwrap().lines().filter(|l| l.starts_with("op=")) {
                let e = run::parse_event(line);
                let inp = run::inputs(&e);
                let o = watched(0, &inp, || outcome(&e));
                println!("{inp} {o}");
            }
        }
        _ => {
            eprintln!("usage: gen|replay");
            std::process::exit(2);
        }
    }
}
