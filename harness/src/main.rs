//! Runtime monitors for laz-rs. `lazmon <PROPERTY> [options]` runs the workload of one property
//! under its oracles and writes what was observed as JSON.
#[macro_use]
mod ctx;
mod far;
mod gen;
mod mio;
mod ops;
mod props;
mod rng;

use ctx::{Ctx, Fail, Stats};
use std::collections::BTreeMap;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> ctx::R,
    /// cases 0..directed are a fixed list of corners; the rest are drawn at random
    pub directed: u64,
    pub quick: u64,
    pub thorough: u64,
    /// worker threads (0 = as many as asked for)
    pub workers: usize,
}

/// Refuses absurd allocations: they are how a corrupt count usually shows.
struct Limited;
static ALLOC_LIMIT: AtomicUsize = AtomicUsize::new(3 << 30);
const GROWTH_LIMIT: usize = 3 << 30;
static ALLOC_MAX: AtomicUsize = AtomicUsize::new(0);

pub fn limit_allocations(bytes: usize) {
    ALLOC_LIMIT.store(bytes, Ordering::Relaxed);
}
pub fn biggest_allocation() -> usize {
    ALLOC_MAX.load(Ordering::Relaxed)
}

#[cold]
fn too_big(n: usize) {
    let mut buf = [0u8; 64];
    let mut w = &mut buf[..];
    let _ = writeln!(w, "LAZMON-ABORT: allocation of {n} bytes");
    let left = w.len();
    let _ = std::io::stderr().write_all(&buf[..64 - left]);
    std::process::abort();
}

unsafe impl GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > 1 << 20 {
            ALLOC_MAX.fetch_max(l.size(), Ordering::Relaxed);
            if l.size() > ALLOC_LIMIT.load(Ordering::Relaxed) {
                too_big(l.size());
            }
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > 1 << 20 {
            ALLOC_MAX.fetch_max(l.size(), Ordering::Relaxed);
            if l.size() > ALLOC_LIMIT.load(Ordering::Relaxed) {
                too_big(l.size());
            }
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > 1 << 20 {
            ALLOC_MAX.fetch_max(n, Ordering::Relaxed);
            // what grows by doubling has been filled with something that was really read
            let grown = n <= 2 * l.size() && n <= GROWTH_LIMIT;
            if n > ALLOC_LIMIT.load(Ordering::Relaxed) && !grown {
                too_big(n);
            }
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

#[cfg(not(miri))]
#[global_allocator]
static ALLOC: Limited = Limited;

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
/// Panics on rayon's threads are re-raised by rayon on the caller; the location is only known here.
static ANY_PANIC: Mutex<String> = Mutex::new(String::new());

fn normalise(s: &str) -> String {
    let mut out = String::new();
    let mut digit = false;
    for c in s.chars() {
        if c.is_ascii_digit() {
            if !digit {
                out.push('#');
            }
            digit = true;
        } else {
            digit = false;
            out.push(c);
        }
        if out.len() > 120 {
            break;
        }
    }
    out
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let file = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit_once("/src/").map(|x| x.1).unwrap_or(f);
                (f.to_string(), l.line())
            })
            .unwrap_or_default();
        if msg.starts_with("unsafe precondition") {
            // the process is about to be ended: say where it was
            let trace = std::backtrace::Backtrace::force_capture().to_string();
            let site = trace.lines().find(|l| l.contains("/repo/src/")).unwrap_or("?").trim().to_string();
            eprintln!("LAZMON-ABORT: {} {site}", msg.lines().next().unwrap_or(""));
        }
        let full = format!("panic:{}:{}\u{1}line {}", file.0, msg, file.1);
        LAST_PANIC.with(|p| *p.borrow_mut() = full.clone());
        if let Ok(mut g) = ANY_PANIC.lock() {
            *g = full;
        }
    }));
}

/// Runs one case, turning a panic into a violation.
fn run_case(p: &Prop, c: &mut Ctx) -> ctx::R {
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(|| (p.run)(c))) {
        Ok(r) => r,
        Err(_) => Err(last_panic()),
    }
}

pub fn last_panic() -> Fail {
    let mut s = LAST_PANIC.with(|p| p.borrow().clone());
    if s.is_empty() {
        s = ANY_PANIC.lock().map(|g| g.clone()).unwrap_or_default();
    }
    let (sig, line) = s.split_once('\u{1}').unwrap_or((&s, ""));
    Fail { sig: normalise(sig), msg: format!("{sig} ({line})") }
}

/// Runs `f`, reporting a panic inside it as a `Fail`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Args {
    id: String,
    thorough: bool,
    seed: u64,
    case: Option<u64>,
    out: Option<String>,
    inflight: Option<String>,
    threads: usize,
    cases: Option<u64>,
    first: u64,
    budget: f64,
    percent: u64,
}

fn args() -> Args {
    let mut a = Args {
        id: String::new(),
        thorough: false,
        seed: 1,
        case: None,
        out: None,
        inflight: None,
        threads: 8,
        cases: None,
        first: 0,
        budget: 600.0,
        percent: 100,
    };
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i < v.len() {
        let val = v.get(i + 1).cloned().unwrap_or_default();
        match v[i].as_str() {
            "--thorough" => {
                a.thorough = true;
                i += 1;
                continue;
            }
            "--seed" => a.seed = val.parse().unwrap(),
            "--case" => a.case = Some(val.parse().unwrap()),
            "--out" => a.out = Some(val),
            "--inflight" => a.inflight = Some(val),
            "--threads" => a.threads = val.parse().unwrap(),
            "--cases" => a.cases = Some(val.parse().unwrap()),
            "--first" => a.first = val.parse().unwrap(),
            "--budget" => a.budget = val.parse().unwrap(),
            "--percent" => a.percent = val.parse().unwrap(),
            _ => {
                a.id = v[i].clone();
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    a
}

fn case_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    rng::mix(&[seed, rng::hash_str(prop), idx])
}

struct Violation {
    fail: Fail,
    idx: u64,
    describe: String,
    count: u64,
}

fn process_cpu() -> f64 {
    #[cfg(not(miri))]
    if let Ok(s) = std::fs::read_to_string("/proc/self/stat") {
        if let Some((_, rest)) = s.rsplit_once(')') {
            let f: Vec<&str> = rest.split_whitespace().collect();
            if f.len() > 12 {
                let u: f64 = f[11].parse().unwrap_or(0.0);
                let k: f64 = f[12].parse().unwrap_or(0.0);
                return (u + k) / 100.0;
            }
        }
    }
    0.0
}

fn main() {
    let a = args();
    install_hook();
    let all = props::all();
    if a.id == "list" {
        for p in &all {
            println!("{} directed={} quick={} thorough={}", p.id, p.directed, p.quick, p.thorough);
        }
        return;
    }
    let Some(p) = all.iter().find(|p| p.id == a.id) else {
        eprintln!("no such property: {}", a.id);
        std::process::exit(2);
    };
    let small = cfg!(miri) || std::env::var("LAZMON_SMALL").is_ok();

    if let Some(idx) = a.case {
        let mut c = Ctx::new(p.id, idx, case_seed(a.seed, p.id, idx), a.thorough, small);
        let r = run_case(p, &mut c);
        println!("case {idx} seed {}: {}", a.seed, c.describe);
        for (k, v) in &c.st.counters {
            println!("  {k} = {v}");
        }
        match r {
            Ok(()) => println!("held"),
            Err(f) => {
                println!("VIOLATED [{}] {}", f.sig, f.msg);
                std::process::exit(1);
            }
        }
        return;
    }

    let total = a.cases.unwrap_or(if a.thorough { p.thorough } else { p.quick } * a.percent / 100).max(1);
    let start = Instant::now();
    let next = AtomicU64::new(a.first);
    let end = a.first + total;
    let workers = if p.workers == 0 { a.threads } else { p.workers.min(a.threads) }.max(1);
    let stats = Mutex::new(Stats::default());
    let violations: Mutex<BTreeMap<String, Violation>> = Mutex::new(BTreeMap::new());
    // (case + 1) being run by each worker, and when it began (ms)
    let current: Arc<Vec<(AtomicU64, AtomicU64)>> =
        Arc::new((0..workers).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect());
    let finished = Arc::new(AtomicBool::new(false));
    let hung = Arc::new(Mutex::new(None::<(u64, String)>));

    #[cfg(not(miri))]
    let inflight = a.inflight.as_ref().map(|f| std::fs::File::create(f).expect("inflight file"));
    #[cfg(miri)]
    let inflight: Option<std::fs::File> = None;

    // a case that does not end is a violation: it is judged on processor time, not on the clock
    #[cfg(not(miri))]
    {
        let current = current.clone();
        let finished = finished.clone();
        let hung = hung.clone();
        std::thread::spawn(move || {
            let mut since: Vec<(u64, f64, Instant)> =
                current.iter().map(|_| (0, 0.0, Instant::now())).collect();
            while !finished.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(500));
                let cpu = process_cpu();
                let busy = current.iter().filter(|c| c.0.load(Ordering::Relaxed) != 0).count().max(1);
                for (i, c) in current.iter().enumerate() {
                    let case = c.0.load(Ordering::Relaxed);
                    if case != since[i].0 {
                        since[i] = (case, cpu, Instant::now());
                    } else if case != 0 {
                        let wall = since[i].2.elapsed().as_secs_f64();
                        let used = (cpu - since[i].1) / busy as f64;
                        let why = if used > 100.0 && wall > 100.0 {
                            Some(format!("does not end ({used:.0} s of processor time)"))
                        } else if wall > 240.0 && used < 1.0 {
                            Some(format!("is stuck (no processor time used in {wall:.0} s)"))
                        } else {
                            None
                        };
                        if let Some(w) = why {
                            *hung.lock().unwrap() = Some((case - 1, w));
                            finished.store(true, Ordering::Relaxed);
                        }
                    }
                }
            }
        });
    }

    let work = |w: usize| {
        let mut local = Stats::default();
        loop {
            let idx = next.fetch_add(1, Ordering::Relaxed);
            if idx >= end || start.elapsed().as_secs_f64() > a.budget {
                break;
            }
            current[w].0.store(idx + 1, Ordering::Relaxed);
            #[cfg(not(miri))]
            if let Some(f) = &inflight {
                use std::os::unix::fs::FileExt;
                let _ = f.write_all_at(&(idx + 1).to_le_bytes(), w as u64 * 8);
            }
            let mut c = Ctx::new(p.id, idx, case_seed(a.seed, p.id, idx), a.thorough, small);
            let r = run_case(p, &mut c);
            current[w].0.store(0, Ordering::Relaxed);
            local.evaluations += 1;
            if c.nontrivial {
                local.distinct.insert(c.sig);
            } else {
                local.trivial += 1;
            }
            if local.samples.len() < 3 && c.nontrivial && (idx >= p.directed || idx % 7 == 3) {
                local.samples.push(format!("case {idx}: {}", c.describe));
            }
            let st = std::mem::take(&mut c.st);
            local.merge(st);
            if let Err(f) = r {
                let mut v = violations.lock().unwrap();
                let e = v.entry(f.sig.clone()).or_insert(Violation {
                    fail: f,
                    idx,
                    describe: c.describe.clone(),
                    count: 0,
                });
                e.count += 1;
                if idx < e.idx {
                    e.idx = idx;
                    e.describe = c.describe.clone();
                }
            }
        }
        #[cfg(not(miri))]
        if let Some(f) = &inflight {
            use std::os::unix::fs::FileExt;
            let _ = f.write_all_at(&0u64.to_le_bytes(), w as u64 * 8);
        }
        stats.lock().unwrap().merge(local);
    };

    let mut alive = true;
    if workers == 1 && cfg!(miri) {
        work(0);
    } else {
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..workers).map(|w| s.spawn({ let work = &work; move || work(w) })).collect();
            loop {
                if hs.iter().all(|h| h.is_finished()) {
                    break;
                }
                if let Some((case, why)) = hung.lock().unwrap().clone() {
                    // nothing can stop the thread: report and leave
                    let sig = "hang".to_string();
                    violations.lock().unwrap().insert(
                        sig.clone(),
                        Violation { fail: Fail { sig, msg: format!("case {case} {why}") }, idx: case, describe: String::new(), count: 1 },
                    );
                    alive = false;
                    break;
                }
                std::thread::sleep(Duration::from_millis(if cfg!(miri) { 1 } else { 5 }));
            }
            if !alive {
                let st = std::mem::take(&mut *stats.lock().unwrap());
                report(&a, &st, &violations.lock().unwrap(), start.elapsed().as_secs_f64());
                std::process::exit(3);
            }
        });
    }
    finished.store(true, Ordering::Relaxed);
    let st = stats.into_inner().unwrap();
    let v = violations.into_inner().unwrap();
    report(&a, &st, &v, start.elapsed().as_secs_f64());
    std::process::exit(if v.is_empty() { 0 } else { 1 });
}

fn report(a: &Args, st: &Stats, v: &BTreeMap<String, Violation>, wall: f64) {
    let mut o = String::from("{\n");
    o.push_str(&format!("\"property\": {},\n\"seed\": {},\n", json_str(&a.id), a.seed));
    o.push_str(&format!("\"evaluations\": {},\n\"trivial\": {},\n", st.evaluations, st.trivial));
    o.push_str(&format!("\"distinct\": {},\n\"wall_s\": {:.3},\n", st.distinct.len(), wall));
    let map = |m: &BTreeMap<String, u64>| {
        m.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ")
    };
    o.push_str(&format!("\"counters\": {{{}}},\n", map(&st.counters)));
    o.push_str(&format!("\"maxima\": {{{}}},\n", map(&st.maxima)));
    let sets: BTreeMap<String, u64> = st.sets.iter().map(|(k, v)| (k.clone(), v.len() as u64)).collect();
    o.push_str(&format!("\"sets\": {{{}}},\n", map(&sets)));
    let samples: Vec<String> = st.samples.iter().take(12).map(|s| json_str(s)).collect();
    o.push_str(&format!("\"samples\": [{}],\n", samples.join(",\n")));
    let viol: Vec<String> = v
        .values()
        .map(|x| {
            format!(
                "{{\"sig\": {}, \"msg\": {}, \"case\": {}, \"describe\": {}, \"count\": {}}}",
                json_str(&x.fail.sig),
                json_str(&x.fail.msg),
                x.idx,
                json_str(&x.describe),
                x.count
            )
        })
        .collect();
    o.push_str(&format!("\"violations\": [{}]\n}}\n", viol.join(",\n")));
    match &a.out {
        Some(f) => std::fs::File::create(f).and_then(|mut f| f.write_all(o.as_bytes())).expect("write report"),
        None => println!("{o}"),
    }
}
