//! Parallel driver, verdicts, replay files and evidence.
use crate::diff::Stat;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub threads: usize,
    pub start: Instant,
    /// scale of the number of cases, in percent
    pub scale: u64,
    pub only: Option<(String, u64)>,
    pub replay_dir: String,
    pub report: Mutex<Report>,
}
#[derive(Default)]
pub struct Report {
    pub stat: Stat,
    pub evaluations: u64,
    pub modules: Vec<Value>,
    pub samples: Vec<Value>,
    pub violations: Vec<Violation>,
    pub known: Vec<String>,
    pub internal: Vec<String>,
    pub assumptions: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct Violation {
    pub module: String,
    pub index: u64,
    pub text: String,
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("MON_BT").is_ok() {
            eprintln!("panic {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}
/// Ok(value) or the panic; a panic raised by the harness' own sources is an internal error.
pub enum Caught<T> {
    Done(T),
    Panicked(String),
    Internal(String),
}
pub fn guard<T>(f: impl FnOnce() -> T) -> Caught<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Caught::Done(v),
        Err(_) => {
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let t = format!("panic: {msg} at {loc}");
            // harness sources are compiled with a path relative to the crate
            if loc.starts_with("src/") || loc.contains("harness/src/") {
                Caught::Internal(t)
            } else {
                Caught::Panicked(t)
            }
        }
    }
}
/// utime + stime of a thread of this process
fn thread_cpu(tid: u64) -> Duration {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    let rest = s.rsplit(") ").next().unwrap_or("");
    let f: Vec<&str> = rest.split(' ').collect();
    let t: u64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0);
    Duration::from_millis(t * 10)
}
fn tid() -> u64 {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().and_then(|n| n.to_str().and_then(|s| s.parse().ok()))).unwrap_or(0)
}

pub struct Module<'a> {
    pub name: &'a str,
    pub quick: u64,
    pub thorough: u64,
    pub quick_secs: u64,
    pub thorough_secs: u64,
    pub rule: &'a str,
}
impl Ctx {
    /// Runs `f` for 0..n on all cores; stops at the first violations.
    pub fn par(&self, m: &Module, f: impl Fn(u64, &mut Stat) -> Vec<String> + Sync) {
        if !self.report.lock().unwrap().violations.is_empty() {
            return;
        }
        let n = if self.thorough { m.thorough } else { m.quick } * self.scale / 100;
        let lim = Duration::from_millis(if self.thorough { m.thorough_secs } else { m.quick_secs } * 10 * self.scale.min(100));
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let (mut lo, mut hi) = (0, n.max(1));
        if let Some((name, i)) = &self.only {
            if name != m.name {
                return;
            }
            (lo, hi) = (*i, *i + 1);
        }
        next.store(lo, Relaxed);
        let total = Mutex::new(Stat::default());
        let viol = Mutex::new(Vec::<Violation>::new());
        let internal = Mutex::new(Vec::<String>::new());
        // thread id -> current case, for crash and hang diagnosis
        let cur: Vec<AtomicU64> = (0..self.threads).map(|_| AtomicU64::new(u64::MAX)).collect();
        let tids: Vec<AtomicU64> = (0..self.threads).map(|_| AtomicU64::new(0)).collect();
        let fin = AtomicBool::new(false);
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..self.threads)
                .map(|t| {
                    let (next, done, stop, total, viol, internal, f, cur, tids) = (&next, &done, &stop, &total, &viol, &internal, &f, &cur, &tids);
                    std::thread::Builder::new()
                        .stack_size(1 << 30)
                        .spawn_scoped(s, move || {
                            let mut st = Stat::default();
                            tids[t].store(tid(), Relaxed);
                            while !stop.load(Relaxed) && t0.elapsed() < lim {
                                let i = next.fetch_add(1, Relaxed);
                                if i >= hi {
                                    break;
                                }
                                cur[t].store(i, Relaxed);
                                let c0 = std::time::Instant::now();
                                match guard(|| f(i, &mut st)) {
                                    Caught::Done(v) => {
                                        if !v.is_empty() {
                                            let mut o = viol.lock().unwrap();
                                            o.push(Violation { module: m.name.into(), index: i, text: v.join("\n") });
                                            if o.len() >= 3 {
                                                stop.store(true, Relaxed);
                                            }
                                        }
                                    }
                                    Caught::Panicked(e) => {
                                        viol.lock().unwrap().push(Violation { module: m.name.into(), index: i, text: e });
                                        stop.store(true, Relaxed);
                                    }
                                    Caught::Internal(e) => {
                                        let mut o = internal.lock().unwrap();
                                        o.push(format!("{}:{i}: {e}", m.name));
                                        if o.len() > 20 {
                                            stop.store(true, Relaxed);
                                        }
                                    }
                                }
                                cur[t].store(u64::MAX, Relaxed);
                                if c0.elapsed() > Duration::from_secs(5) {
                                    eprintln!("slow case {}:{i}: {:.1} s", m.name, c0.elapsed().as_secs_f64());
                                }
                                done.fetch_add(1, Relaxed);
                            }
                            total.lock().unwrap().merge(&st);
                        })
                        .unwrap()
                })
                .collect();
            // generous wall-clock watchdog; its firing is inconclusive except where the property is about
            // termination (C22), and then it is decided on CPU time of the stuck thread
            let (cur, fin, tids) = (&cur, &fin, &tids);
            s.spawn(move || {
                let cpu = |k: usize| thread_cpu(tids[k].load(Relaxed));
                let mut last: Vec<(u64, Instant, Duration)> = cur.iter().enumerate().map(|(k, c)| (c.load(Relaxed), Instant::now(), cpu(k))).collect();
                while !fin.load(Relaxed) {
                    std::thread::sleep(Duration::from_millis(200));
                    for (k, c) in cur.iter().enumerate() {
                        let v = c.load(Relaxed);
                        if v != last[k].0 {
                            last[k] = (v, Instant::now(), cpu(k));
                        } else if v != u64::MAX && last[k].1.elapsed() > Duration::from_secs(100) {
                            let used = cpu(k).saturating_sub(last[k].2);
                            let prop = &self.prop;
                            if prop == "C22" && used > Duration::from_secs(100) {
                                let path = format!("{}/{prop}-{}-{v}.txt", self.replay_dir, m.name);
                                let _ = std::fs::write(&path, format!("property {prop}\nmodule {}\nindex {v}\nseed {}\nreplay: mega-monitor {prop} --seed {} --only {}:{v}\n\nthe case did not terminate within {:.0} s of CPU time of its thread (cases take below 15 s)\n", m.name, self.seed, self.seed, m.name, used.as_secs_f64()));
                                println!("VIOLATION property={prop} replay={path}");
                                std::process::exit(1);
                            }
                            if last[k].1.elapsed() > Duration::from_secs(400) {
                                println!("STUCK property={prop} module={} case={v} ({:.0} s of CPU time)", m.name, used.as_secs_f64());
                                std::process::exit(3);
                            }
                        }
                    }
                }
            });
            for h in hs {
                let _ = h.join();
            }
            fin.store(true, Relaxed);
        });
        let total = total.into_inner().unwrap();
        let mut viol = viol.into_inner().unwrap();
        viol.sort_by_key(|v| v.index);
        let mut r = self.report.lock().unwrap();
        let d = done.into_inner();
        r.evaluations += d;
        r.internal.extend(internal.into_inner().unwrap());
        r.modules.push(json!({
            "name": m.name, "rule": m.rule, "cases": d, "planned": n, "transactions": total.txs, "opcodes_compared": total.steps,
            "skipped_too_long": total.skipped, "distinct": total.seen.len(), "outcomes": total.statuses,
            "events": total.reach.n.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_, _>>(),
            "wall_s": t0.elapsed().as_secs_f64(),
        }));
        r.samples.extend(total.samples.iter().take(3).map(|s| json!(s)));
        r.stat.merge(&total);
        r.violations.extend(viol);
    }
}
