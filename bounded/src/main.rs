//! Looks for concrete failing inputs on the unmodified public API: every
//! history up to a given length over small sets of operations, compared with a
//! sequential specification.  Bounded: what it finds is a real failure, what it
//! does not find is not proved by it.
//!
//! bounded <scenario> <depth> [property]     explore
//! bounded <scenario> --replay <history>     run one history again
//!
//! On a failure: "FAIL <scenario> <history>" and "REASON [properties] message".
mod chan_async;
mod chan_blocking;
mod live;
mod misc;
mod ring;
mod track;
mod traits;

use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Properties a check belongs to, and what went wrong.
pub type Fail = (&'static str, String);
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! check {
    ($c:expr, $props:expr, $($m:tt)*) => { if !($c) { return Err(($props, format!($($m)*))); } };
}

/// What a case looked at beyond itself.
pub static EXTRA: AtomicUsize = AtomicUsize::new(0);

pub trait World {
    fn step(&mut self, op: usize) -> Res;
    fn enabled(&self, op: usize) -> bool;
    fn finish(self: Box<Self>) -> Res;
}
pub struct Scenario {
    pub name: &'static str,
    pub ops: &'static [&'static str],
    pub configs: usize,
    pub make: fn(usize) -> Box<dyn World>,
}

fn text(s: &Scenario, cfg: usize, h: &[usize]) -> String {
    let mut t = format!("{}", cfg);
    for o in h {
        t += ":";
        t += s.ops[*o];
    }
    t
}

fn run(s: &Scenario, cfg: usize, h: &[usize], enabled: &mut Vec<usize>) -> Res {
    let r = catch_unwind(AssertUnwindSafe(|| {
        track::reset();
        let mut w = (s.make)(cfg);
        for &o in h {
            if let Err(e) = w.step(o) {
                std::mem::forget(w);
                return Err(e);
            }
        }
        enabled.clear();
        enabled.extend((0..s.ops.len()).filter(|&o| w.enabled(o)));
        w.finish()?;
        track::all_gone()
    }));
    match r {
        Ok(r) => r,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err((if s.name.contains("ring") { "C11" } else { "C11,C08,C09,C10" }, format!("an operation panicked: {}", m)))
        }
    }
}

fn wanted(name: &str, props: &str, only: &Option<String>) -> bool {
    match only {
        None => true,
        // whatever a static flavour does wrong, it does not do like the other ones
        Some(p) if p == "C13" && (name.starts_with("static") || name.starts_with("s_")) => true,
        Some(p) => props.split(',').any(|x| x.trim() == p),
    }
}

fn report(s: &str, h: &str, f: &Fail) -> ! {
    println!("FAIL {} {}", s, h);
    println!("REASON [{}{}] {}", f.0, if s.starts_with("static") || h.starts_with("s_") { ",C13" } else { "" }, f.1);
    std::process::exit(1)
}

fn explore(s: &'static Scenario, depth: usize, only: Option<String>) {
    let workers = 4;
    let slots: Arc<Vec<Mutex<(Instant, String)>>> = Arc::new((0..workers).map(|_| Mutex::new((Instant::now(), String::new()))).collect());
    let done = Arc::new(AtomicBool::new(false));
    {
        let (slots, done) = (slots.clone(), done.clone());
        std::thread::spawn(move || {
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(500));
                for sl in slots.iter() {
                    let g = sl.lock().unwrap();
                    if !g.1.is_empty() && g.0.elapsed() > Duration::from_secs(30) {
                        report(s.name, &g.1, &("C11,C09,C10", "an operation did not return within 30 s".to_string()));
                    }
                }
            }
        });
    }
    let cases = Arc::new(AtomicUsize::new(0));
    let sample = Arc::new(Mutex::new(String::new()));
    let tasks: Arc<Mutex<Vec<(usize, Vec<usize>)>>> = Arc::new(Mutex::new(
        (0..s.configs).flat_map(|c| (0..s.ops.len()).map(move |o| (c, vec![o]))).collect(),
    ));
    let ths: Vec<_> = (0..workers)
        .map(|i| {
            let (slots, cases, sample, tasks, only) = (slots.clone(), cases.clone(), sample.clone(), tasks.clone(), only.clone());
            std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
                loop {
                    let t = tasks.lock().unwrap().pop();
                    let (cfg, first) = match t { Some(t) => t, None => break };
                    // is the first operation possible at all?
                    let mut en = vec![];
                    match run(s, cfg, &[], &mut en) {
                        Ok(()) => {}
                        Err(f) => if wanted(s.name, f.0, &only) { report(s.name, &text(s, cfg, &[]), &f) } else { continue },
                    }
                    if !en.contains(&first[0]) { continue; }
                    let mut stack = vec![first];
                    while let Some(h) = stack.pop() {
                        *slots[i].lock().unwrap() = (Instant::now(), text(s, cfg, &h));
                        let r = run(s, cfg, &h, &mut en);
                        let n = cases.fetch_add(1, SeqCst);
                        if n == 1000 || n == 10 { *sample.lock().unwrap() = text(s, cfg, &h); }
                        match r {
                            Err(f) => if wanted(s.name, f.0, &only) { report(s.name, &text(s, cfg, &h), &f) },
                            Ok(()) => if h.len() < depth {
                                for &o in &en {
                                    let mut h2 = h.clone();
                                    h2.push(o);
                                    stack.push(h2);
                                }
                            },
                        }
                    }
                    slots[i].lock().unwrap().1.clear();
                }
            }).unwrap()
        })
        .collect();
    for t in ths { t.join().unwrap(); }
    done.store(true, SeqCst);
    println!("CASES {}", cases.load(SeqCst));
    println!("SAMPLE {}", sample.lock().unwrap());
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let scenarios: Vec<&'static Scenario> = ring::SCENARIOS.iter().chain(chan_async::SCENARIOS).chain(chan_blocking::SCENARIOS).collect();
    if let Some(s) = scenarios.iter().find(|s| s.name == a[1]) {
        if a[2] == "--replay" {
            let mut it = a[3].split(':');
            let cfg = it.next().unwrap().parse().unwrap();
            let h: Vec<usize> = it.map(|n| s.ops.iter().position(|o| *o == n).unwrap()).collect();
            match run(s, cfg, &h, &mut vec![]) {
                Ok(()) => println!("passes"),
                Err(f) => report(s.name, &a[3], &f),
            }
        } else {
            explore(s, a[2].parse().unwrap(), a.get(3).cloned());
        }
        return;
    }
    let only = a.get(3).cloned().filter(|_| a[2] != "--replay");
    let list = live::LIST.iter().chain(misc::LIST).filter(|c| c.scenario == a[1]);
    let mut n = 0;
    for c in list {
        if a[2] == "--replay" && a[3] != c.name { continue; }
        n += 1;
        let (name, scenario, props) = (c.name, c.scenario, c.props);
        let over = Arc::new(AtomicBool::new(false));
        let o2 = over.clone();
        std::thread::spawn(move || {
            let t = Instant::now();
            while !o2.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                if t.elapsed() > Duration::from_secs(60) {
                    report(scenario, name, &(props, "did not finish within 60 s: somebody waits forever".to_string()));
                }
            }
        });
        track::reset();
        let r = match catch_unwind(c.run) {
            Ok(r) => r,
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Err((props, format!("panicked: {}", m)))
            }
        };
        over.store(true, SeqCst);
        if let Err(f) = r {
            if wanted(name, f.0, &only) { report(scenario, name, &f); }
        }
    }
    assert!(n > 0, "unknown scenario");
    println!("CASES {}", n + EXTRA.load(SeqCst));
    println!("SAMPLE {}", a[1]);
}

pub struct Case {
    pub scenario: &'static str,
    pub name: &'static str,
    /// Properties a hang or a panic speaks against.
    pub props: &'static str,
    pub run: fn() -> Res,
}
