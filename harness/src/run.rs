//! The runner: cases on several threads, statistics, violations, and the watchdog.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::rng::Rng;

/// The cases given up because the image made did not pass the reference.
const DISCARDED: &str = "cases discarded by self-checks";

#[derive(Clone)]
pub struct Config {
    pub property: String,
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub cases: u64,
    pub secs: f64,
    pub only: Option<u64>,
    pub out: String,
    pub progress: Option<String>,
    pub digests: Option<String>,
    /// The inputs made ahead of time.
    pub stock: Option<String>,
}

/// Whether to keep inputs small, as the interpreter is slow.
pub fn small() -> bool {
    cfg!(miri) || SMALL.load(Ordering::Relaxed)
}

pub static SMALL: AtomicBool = AtomicBool::new(false);

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub digests: Vec<(u64, u64, &'static str)>,
    pub stock: Vec<(u64, Vec<u8>)>,
}

pub struct Violation {
    pub case: u64,
    /// What sets this failure apart from others.
    pub signature: String,
    pub detail: String,
    pub input: Vec<u8>,
}

pub struct Case<'a> {
    pub config: &'a Config,
    pub id: u64,
    pub rng: Rng,
    pub stats: Stats,
}

impl Case<'_> {
    /// An execution observed by a monitor.
    pub fn evaluate(&mut self) {
        self.stats.evaluations += 1;
    }

    /// A distinct, non-trivial observation.
    pub fn observe(&mut self, digest: u64) {
        if self.stats.distinct.len() < 2_000_000 {
            self.stats.distinct.insert(digest);
        }
    }

    pub fn count(&mut self, name: &str, n: u64) {
        *self.stats.counters.entry(name.into()).or_default() += n;
    }

    pub fn sample(&mut self, make: impl FnOnce() -> String) {
        if self.id < 300 && self.stats.samples.is_empty() {
            let mut s = make();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.stats.samples.push(s);
        }
    }

    pub fn violation(&mut self, signature: impl Into<String>, detail: String, input: &[u8]) {
        if self.stats.violations.len() < 4 {
            self.stats.violations.push(Violation {
                case: self.id,
                signature: signature.into(),
                detail,
                input: input[..input.len().min(1 << 16)].to_vec(),
            });
        }
    }
}

/// What a call into the crate came to.
pub enum Got<T> {
    Value(T),
    Error(std::io::Error),
    Panic(String),
}

impl<T> Got<T> {
    pub fn describe(&self) -> String {
        match self {
            Got::Value(_) => "a value".into(),
            Got::Error(e) => format!("the error {e:?}"),
            Got::Panic(s) => format!("the panic {s}"),
        }
    }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let message = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let place = info.location().map_or("?".into(), |l| format!("{}:{}", l.file(), l.line()));
        PANIC.with(|p| *p.borrow_mut() = format!("{message:?} at {place}"));
    }));
}

/// Call into the crate.
pub fn guard<T>(f: impl FnOnce() -> std::io::Result<T>) -> Got<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(value)) => Got::Value(value),
        Ok(Err(error)) => Got::Error(error),
        Err(_) => Got::Panic(PANIC.with(|p| p.borrow().clone())),
    }
}

struct Slot {
    case: AtomicU64,
    tid: AtomicU64,
}

fn thread_id() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|n| n.to_str().and_then(|n| n.parse().ok())))
        .unwrap_or(0)
}

/// Processor time of a thread in seconds.
fn thread_time(tid: u64) -> Option<f64> {
    let stat = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &stat[stat.rfind(')')? + 2..];
    let fields: Vec<&str> = rest.split(' ').collect();
    let ticks: u64 = fields.get(11)?.parse::<u64>().ok()? + fields.get(12)?.parse::<u64>().ok()?;
    Some(ticks as f64 / 100.0)
}

/// Processor time one case may take.
const PATIENCE: f64 = 45.0;

pub fn run(config: &Config, case: fn(&mut Case)) {
    install_hook();
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Stats::default());
    let slots: Vec<Slot> = (0..config.threads)
        .map(|_| Slot { case: AtomicU64::new(u64::MAX), tid: AtomicU64::new(0) })
        .collect();
    let running = AtomicU64::new(config.threads as u64);
    std::thread::scope(|scope| {
        for k in 0..config.threads {
            let (next, stop, total, slots, running) = (&next, &stop, &total, &slots, &running);
            std::thread::Builder::new()
                // What threads have by default suffices for any input.
                .stack_size(if config.property == "P01" && !cfg!(any(miri, sanitized)) { 2 << 20 } else { 16 << 20 })
                .spawn_scoped(scope, move || {
                    if !cfg!(miri) {
                        slots[k].tid.store(thread_id(), Ordering::Relaxed);
                    }
                    let progress = config.progress.as_ref().and_then(|dir| {
                        std::fs::File::create(format!("{dir}/{k}")).ok()
                    });
                    loop {
                        let id = match config.only {
                            Some(id) if k == 0 && slots[0].case.load(Ordering::Relaxed) == u64::MAX => id,
                            Some(_) => break,
                            _ => next.fetch_add(1, Ordering::Relaxed),
                        };
                        if config.only.is_none()
                            && (id >= config.cases
                                || stop.load(Ordering::Relaxed)
                                || start.elapsed().as_secs_f64() > config.secs)
                        {
                            break;
                        }
                        slots[k].case.store(id, Ordering::Relaxed);
                        if let Some(file) = &progress {
                            use std::os::unix::fs::FileExt;
                            let _ = file.write_all_at(&id.to_le_bytes(), 0);
                        }
                        let mut c = Case {
                            config,
                            id,
                            rng: Rng::new(config.seed, &config.property, id),
                            stats: Stats::default(),
                        };
                        let began = Instant::now();
                        let result = catch_unwind(AssertUnwindSafe(|| case(&mut c)));
                        if began.elapsed().as_secs_f64() > 3.0 && config.out != "-" {
                            eprintln!("{} case {id} took {:.1} s", config.property, began.elapsed().as_secs_f64());
                        }
                        let mut stats = std::mem::take(&mut c.stats);
                        if result.is_err() {
                            let message = PANIC.with(|p| p.borrow().clone());
                            if message.contains("self-check") && config.only.is_none() {
                                // The generator went wrong, which says nothing about the library.
                                *stats.counters.entry(DISCARDED.into()).or_default() += 1;
                                eprintln!("{} case {id}: {message}", config.property);
                            } else {
                                stats.errors.push(format!("case {id}: {message}"));
                            }
                        }
                        let found = !stats.violations.is_empty();
                        let mut total = total.lock().unwrap();
                        merge(&mut total, stats);
                        if found && config.out != "-" && !cfg!(miri) {
                            // What was observed must survive an end that is not orderly.
                            write_to(&format!("{}.partial", config.out), config, &total, start.elapsed().as_secs_f64());
                        }
                        if total.violations.len() >= 40 || total.errors.len() >= 10 {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    if let Some(file) = &progress {
                        let _ = file.set_len(0);
                    }
                    running.fetch_sub(1, Ordering::Relaxed);
                })
                .unwrap();
        }
        if cfg!(miri) {
            return;
        }
        // The watchdog: one case must not take for ever, by the processor's own count.
        let mut since: Vec<(u64, f64)> = vec![(u64::MAX, 0.0); config.threads];
        while running.load(Ordering::Relaxed) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            for (k, slot) in slots.iter().enumerate() {
                let id = slot.case.load(Ordering::Relaxed);
                let tid = slot.tid.load(Ordering::Relaxed);
                if tid == 0 || start.elapsed().as_secs_f64() < 1.0 {
                    continue;
                }
                let Some(time) = thread_time(tid) else { continue };
                if since[k].0 != id {
                    since[k] = (id, time);
                } else if time - since[k].1 > PATIENCE {
                    let mut total = total.lock().unwrap();
                    total.violations.push(Violation {
                        case: id,
                        signature: "never finishes".into(),
                        detail: format!("the case took over {PATIENCE} s of processor time"),
                        input: vec![],
                    });
                    write(config, &total, start.elapsed().as_secs_f64());
                    std::process::exit(0);
                }
            }
        }
    });
    let mut total = total.lock().unwrap();
    if let (true, Some(path)) = (config.property == "STOCK", &config.stock) {
        total.stock.sort();
        let mut bytes = vec![];
        for (id, item) in &total.stock {
            bytes.extend(id.to_be_bytes());
            bytes.extend((item.len() as u64).to_be_bytes());
            bytes.extend(item);
        }
        std::fs::write(path, bytes).expect("writing the stock");
    }
    write(config, &total, start.elapsed().as_secs_f64());
}

fn merge(total: &mut Stats, stats: Stats) {
    total.evaluations += stats.evaluations;
    if total.distinct.len() < 4_000_000 {
        total.distinct.extend(stats.distinct);
    }
    for (name, n) in stats.counters {
        *total.counters.entry(name).or_default() += n;
    }
    if total.samples.len() < 5 {
        total.samples.extend(stats.samples);
    }
    total.violations.extend(stats.violations);
    total.errors.extend(stats.errors);
    total.digests.extend(stats.digests);
    total.stock.extend(stats.stock);
}

fn quote(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

pub fn hex(bytes: &[u8]) -> String {
    bytes.iter().map(|b| format!("{b:02x}")).collect()
}

fn report(config: &Config, stats: &Stats, wall: f64) -> String {
    let violations: Vec<String> = stats
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"case\":{},\"signature\":{},\"detail\":{},\"input\":\"{}\"}}",
                v.case,
                quote(&v.signature),
                quote(&v.detail),
                hex(&v.input)
            )
        })
        .collect();
    let counters: Vec<String> =
        stats.counters.iter().map(|(k, v)| format!("{}:{v}", quote(k))).collect();
    let samples: Vec<String> = stats.samples.iter().map(|s| quote(s)).collect();
    let errors: Vec<String> = stats.errors.iter().map(|s| quote(s)).collect();
    format!(
        "{{\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct\":{},\"counters\":{{{}}},\
         \"samples\":[{}],\"violations\":[{}],\"errors\":[{}],\"wall\":{wall:.2}}}\n",
        quote(&config.property),
        config.seed,
        stats.evaluations,
        stats.distinct.len(),
        counters.join(","),
        samples.join(","),
        violations.join(","),
        errors.join(","),
    )
}

fn write_to(path: &str, config: &Config, stats: &Stats, wall: f64) {
    let text = report(config, stats, wall);
    // It takes the place of the previous one at once.
    let fresh = format!("{path}.new");
    if std::fs::write(&fresh, text).is_ok() {
        let _ = std::fs::rename(&fresh, path);
    }
}

fn write(config: &Config, stats: &Stats, wall: f64) {
    let text = report(config, stats, wall);
    if config.out == "-" {
        print!("{text}");
    } else {
        std::fs::write(&config.out, text).expect("writing the report");
    }
    if let Some(path) = &config.digests {
        let mut lines = stats.digests.clone();
        lines.sort();
        let text: String =
            lines.iter().map(|(id, digest, what)| format!("{id} {digest:016x} {what}\n")).collect();
        std::fs::write(path, text).expect("writing the digests");
    }
}
