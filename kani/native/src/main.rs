//! Runs contracts natively.
//!   fvn list PREFIX
//!   fvn search SEED MILLIS MAXITER PREFIX...   one JSON line per contract
//!   fvn replay NAME TAPE                        TAPE: hex words separated by commas
#![allow(unexpected_cfgs)]
use fvh::nd::{Discard, SOURCE};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

mod modules;
mod cell;
mod gen;
mod ndelay;
mod nnet;
mod nseq;
mod nwave;
mod nzoo;
mod zoo;

fn all() -> Vec<(&'static str, fn())> {
    modules::all()
}

fn message(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}
enum Outcome {
    Held,
    Discarded,
    Failed(String),
}
thread_local! { static LOC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
fn run(f: fn()) -> Outcome {
    match panic::catch_unwind(f) {
        Ok(()) => Outcome::Held,
        Err(e) => {
            if e.downcast_ref::<Discard>().is_some() {
                Outcome::Discarded
            } else {
                Outcome::Failed(format!("{} at {}", message(&*e), LOC.with(|l| l.borrow().clone())))
            }
        }
    }
}
fn hex(log: &[Vec<u8>]) -> String {
    log.iter()
        .map(|b| b.iter().map(|x| format!("{:02x}", x)).collect::<String>())
        .collect::<Vec<_>>()
        .join(",")
}
fn unhex(s: &str) -> Vec<Vec<u8>> {
    s.split(',')
        .filter(|w| !w.is_empty())
        .map(|w| (0..w.len() / 2).map(|i| u8::from_str_radix(&w[2 * i..2 * i + 2], 16).unwrap()).collect())
        .collect()
}
fn esc(s: &str) -> String {
    s.chars()
        .flat_map(|c| match c {
            '"' => "\\\"".chars().collect::<Vec<_>>(),
            '\\' => "\\\\".chars().collect(),
            '\n' => " ".chars().collect(),
            c if (c as u32) < 32 => " ".chars().collect(),
            c => vec![c],
        })
        .collect()
}
fn replay_tape(f: fn(), tape: &[Vec<u8>]) -> Outcome {
    SOURCE.with(|s| {
        let mut s = s.borrow_mut();
        s.tape = Some(tape.to_vec().into_iter());
        s.log.clear();
    });
    let o = run(f);
    SOURCE.with(|s| s.borrow_mut().tape = None);
    o
}
fn search(name: &str, f: fn(), seed: u64, millis: u64, maxiter: u64) -> String {
    let start = Instant::now();
    let (mut evals, mut discards) = (0u64, 0u64);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut sample = String::new();
    let mut fail: Option<(String, String)> = None;
    let mut h0 = std::collections::hash_map::DefaultHasher::new();
    name.hash(&mut h0);
    let base = h0.finish() ^ seed.wrapping_mul(0x9e3779b97f4a7c15);
    let mut i = 0u64;
    while i < maxiter && (i < 3 || start.elapsed() < Duration::from_millis(millis)) {
        SOURCE.with(|s| {
            let mut s = s.borrow_mut();
            s.tape = None;
            s.rng = base.wrapping_add(i.wrapping_mul(0xd1342543de82ef95));
            s.style = i;
            s.log.clear();
        });
        i += 1;
        let o = run(f);
        let log = SOURCE.with(|s| s.borrow().log.clone());
        match o {
            Outcome::Discarded => {
                discards += 1;
                continue;
            }
            Outcome::Held => {
                evals += 1;
                let mut h = std::collections::hash_map::DefaultHasher::new();
                log.hash(&mut h);
                if seen.len() < 2_000_000 {
                    seen.insert(h.finish());
                }
                if sample.is_empty() {
                    sample = hex(&log[..log.len().min(24)]);
                }
                if log.is_empty() {
                    break;
                }
            }
            Outcome::Failed(m) => {
                evals += 1;
                // Shrink: zero single draws while it still fails.
                let mut tape = log.clone();
                let mut msg = m;
                let t0 = Instant::now();
                for k in 0..tape.len() {
                    if t0.elapsed() > Duration::from_millis(1500) {
                        break;
                    }
                    if tape[k].iter().all(|x| *x == 0) {
                        continue;
                    }
                    let mut t2 = tape.clone();
                    t2[k].iter_mut().for_each(|x| *x = 0);
                    if let Outcome::Failed(m2) = replay_tape(f, &t2) {
                        tape = t2;
                        msg = m2;
                    }
                }
                fail = Some((msg, hex(&tape)));
                break;
            }
        }
    }
    let (ok, m, t) = match &fail {
        None => ("true", String::new(), String::new()),
        Some((m, t)) => ("false", esc(m), t.clone()),
    };
    format!(
        "{{\"contract\":\"{}\",\"held\":{},\"evals\":{},\"distinct\":{},\"discards\":{},\"message\":\"{}\",\"tape\":\"{}\",\"sample\":\"{}\",\"secs\":{:.3}}}",
        name, ok, evals, seen.len(), discards, m, t, sample, start.elapsed().as_secs_f64()
    )
}

fn main() {
    panic::set_hook(Box::new(|i| {
        if let Some(l) = i.location() {
            LOC.with(|x| *x.borrow_mut() = format!("{}:{}", l.file(), l.line()));
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for (n, _) in all() {
                if n.starts_with(&a[2]) {
                    println!("{}", n);
                }
            }
        }
        Some("replay") => {
            let tape = unhex(a.get(3).map(|s| s.as_str()).unwrap_or(""));
            let f = all().iter().find(|(n, _)| *n == a[2]).expect("no such contract").1;
            match replay_tape(f, &tape) {
                Outcome::Held => println!("HELD"),
                Outcome::Discarded => println!("DISCARDED"),
                Outcome::Failed(m) => {
                    println!("FAILED {}", m);
                    std::process::exit(1);
                }
            }
        }
        Some("search") => {
            let seed: u64 = a[2].parse().unwrap();
            let millis: u64 = a[3].parse().unwrap();
            let maxiter: u64 = a[4].parse().unwrap();
            let jobs: Vec<(&'static str, fn())> =
                all().into_iter().filter(|(n, _)| a[5..].iter().any(|p| n.starts_with(p.as_str()))).collect();
            let next = Arc::new(AtomicUsize::new(0));
            let out = Arc::new(Mutex::new(()));
            let jobs = Arc::new(jobs);
            let threads: Vec<_> = (0..8)
                .map(|_| {
                    let (jobs, next, out) = (jobs.clone(), next.clone(), out.clone());
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn(move || loop {
                            let k = next.fetch_add(1, Ordering::SeqCst);
                            if k >= jobs.len() {
                                break;
                            }
                            let line = search(jobs[k].0, jobs[k].1, seed, millis, maxiter);
                            let _g = out.lock().unwrap();
                            println!("{}", line);
                        })
                        .unwrap()
                })
                .collect();
            for t in threads {
                let _ = t.join();
            }
        }
        _ => eprintln!("usage"),
    }
}
