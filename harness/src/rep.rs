//! Case runner and reporter: seeds, worker threads, watchdog, panic capture, known findings,
//! evidence part files.
use crate::rng::{hash_str, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Fail {
    pub kind: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;

pub fn fail<T>(kind: &str, msg: String) -> Result<T, Fail> {
    Err(Fail { kind: kind.to_string(), msg })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $kind:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::rep::fail($kind, format!($($arg)*));
        }
    };
}

pub struct Case {
    pub rng: Rng,
    pub class: &'static str,
    pub idx: u64,
    pub thorough: bool,
    input: String,
    nontrivial: bool,
    skipped: bool,
    ev: BTreeMap<&'static str, u64>,
    soft: Option<Fail>,
}

impl Case {
    /// a case outside of the runner (child processes)
    pub fn standalone(seed: u64, class: &'static str, idx: u64) -> Case {
        Case { rng: Rng::new(seed), class, idx, thorough: false, input: String::new(), nontrivial: false, skipped: false, ev: BTreeMap::new(), soft: None }
    }
    pub fn events(&self) -> Vec<(&'static str, u64)> {
        self.ev.iter().map(|(k, v)| (*k, *v)).collect()
    }
    /// an isolated deviation: counted, and a violation only when its rate is far above the base rate
    pub fn soft(&mut self, name: &'static str, f: Fail) {
        self.ev(name, 1);
        self.soft = Some(f);
    }
    /// for fixed inputs: an isolated deviation noted during the case is the verdict
    pub fn harden(&mut self, r: R) -> R {
        r?;
        match self.soft.take() {
            Some(f) => {
                self.ev.clear();
                Err(f)
            }
            None => Ok(()),
        }
    }
    /// canonical text of the input of this case (identifies known findings, counted for distinctness)
    pub fn input(&mut self, s: String) {
        if !self.input.is_empty() {
            self.input.push_str(" | ");
        }
        self.input.push_str(&s);
        set_current_input(&self.input);
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn skip(&mut self) {
        self.skipped = true;
    }
    pub fn ev(&mut self, name: &'static str, n: u64) {
        *self.ev.entry(name).or_insert(0) += n;
    }
    pub fn inputs(&self) -> &str {
        &self.input
    }
}

pub struct Class {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Case) -> R,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub classes: Vec<Class>,
    /// minimum number of monitored events (name, count at quick tier); fewer is inconclusive
    pub floors: Vec<(&'static str, u64)>,
    /// (event, per event, highest accepted ratio): above it the isolated deviations are a violation
    pub rates: Vec<(&'static str, &'static str, f64)>,
}

thread_local! {
    static PANICS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static IN_CASE: RefCell<bool> = const { RefCell::new(false) };
    static SLOT: RefCell<Option<usize>> = const { RefCell::new(None) };
}

pub struct Slot {
    clock: AtomicI64,
    start_ns: AtomicU64,
    active: AtomicBool,
    alloc: AtomicU64,
    info: Mutex<(String, u64, String)>,
}
static SLOTS: Mutex<Vec<&'static Slot>> = Mutex::new(Vec::new());

/// what is being run right now (reported when a case does not return)
pub fn progress(s: &str) {
    set_current_input(s)
}
fn set_current_input(s: &str) {
    SLOT.with(|i| {
        if let Some(i) = *i.borrow() {
            let slots = SLOTS.lock().unwrap();
            slots[i].info.lock().unwrap().2 = s.to_string();
        }
    });
}

#[cfg(miri)]
fn cpu_ns(_: libc::clockid_t) -> u64 {
    0
}
#[cfg(not(miri))]
fn cpu_ns(clock: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    // SAFETY: plain libc call on an initialised struct
    unsafe {
        libc::clock_gettime(clock, &mut ts);
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

thread_local! {
    static ALLOCATED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// number of bytes the current thread asked the allocator for (set by the counting allocator)
pub fn note_alloc(n: usize) {
    let _ = ALLOCATED.try_with(|a| a.set(a.get() + n as u64));
}

/// per case budgets: logical work measured as CPU time of the one thread that runs the case. Cases
/// take micro to milliseconds; the budget is more than four orders of magnitude above that.
pub const CASE_CPU_BUDGET_S: u64 = 40;

pub struct Args {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub out: String,
    pub replay_dir: String,
    pub label: String,
    pub replay: Option<String>,
    pub class: Option<String>,
    pub index: Option<u64>,
    pub scale: f64,
    pub known: String,
    pub max_report: usize,
    pub threads: usize,
    pub verbose: bool,
}

pub fn parse_args() -> Args {
    let mut a = Args {
        prop: String::new(),
        tier: "quick".into(),
        seed: 1,
        out: String::new(),
        replay_dir: "/verif/replay".into(),
        label: "run".into(),
        replay: None,
        class: None,
        index: None,
        scale: 1.0,
        known: "/verif/known_findings.jsonl".into(),
        max_report: 5,
        threads: 8,
        verbose: false,
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut val = || it.next().expect("value");
        match x.as_str() {
            "--tier" => a.tier = val(),
            "--seed" => a.seed = val().parse().unwrap(),
            "--out" => a.out = val(),
            "--replay-dir" => a.replay_dir = val(),
            "--label" => a.label = val(),
            "--replay" => a.replay = Some(val()),
            "--class" => a.class = Some(val()),
            "--index" => a.index = Some(val().parse().unwrap()),
            "--scale" => a.scale = val().parse().unwrap(),
            "--known" => a.known = val(),
            "--max-report" => a.max_report = val().parse().unwrap(),
            "--threads" => a.threads = val().parse().unwrap(),
            "-v" => a.verbose = true,
            p => a.prop = p.to_string(),
        }
    }
    a
}

#[derive(serde::Deserialize, Clone)]
pub struct Known {
    pub status: String,
    pub property: String,
    #[serde(default)]
    pub kind: String,
    #[serde(default)]
    pub input: String,
    #[serde(default)]
    pub what: String,
}

pub fn load_known(path: &str, prop: &str) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(path) else { return vec![] };
    s.lines()
        .filter(|l| !l.trim().is_empty())
        .filter_map(|l| serde_json::from_str::<Known>(l).ok())
        .filter(|k| k.property == prop && k.status == "known")
        .collect()
}

struct Found {
    class: &'static str,
    idx: u64,
    fail: Fail,
    input: String,
}

pub fn write_replay(a: &Args, class: &str, idx: u64, kind: &str, msg: &str, input: &str) -> String {
    let _ = std::fs::create_dir_all(&a.replay_dir);
    let path = format!("{}/{}-{}-{}-{}-{}.json", a.replay_dir, a.prop, a.label, class, a.seed, idx);
    let j = serde_json::json!({
        "property": a.prop, "label": a.label, "class": class, "index": idx, "seed": a.seed, "tier": a.tier,
        "kind": kind, "message": msg, "input": input,
        "how": format!("/verif/check {} --replay {}", a.prop, path),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    path
}

pub fn run_one(c: &mut Case, f: fn(&mut Case) -> R) -> Result<R, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    IN_CASE.with(|x| *x.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(|| f(c)));
    IN_CASE.with(|x| *x.borrow_mut() = false);
    match r {
        Ok(r) => Ok(r),
        Err(_) => {
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") {
                // a panic of the harness itself is never a verdict about the library
                Err(format!("harness panic at {loc}: {msg}"))
            } else if loc.contains("polyline/pline_view.rs") && cfg!(debug_assertions) {
                // the validation of slices that debug builds do compares with tolerances of its own;
                // slices that graze them are counted (see RATES_ALWAYS), not reported one by one
                c.soft("view_validation_hits", Fail { kind: "panic".into(), msg: format!("library panicked at {loc}: {msg}") });
                Ok(Ok(()))
            } else {
                Ok(fail("panic", format!("library panicked at {loc}: {msg}")))
            }
        }
    }
}

/// number of panics that started on this thread so far
pub fn panics() -> u64 {
    PANICS.with(|p| p.get())
}
/// text of the last panic on this thread
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone()).map(|(m, l)| format!("{l}: {m}")).unwrap_or_default()
}

/// turn a panic of a library call into an outcome that can be inspected
pub fn catching<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(e) => {
            let got = PANIC.with(|p| p.borrow_mut().take());
            if let Some((m, l)) = got {
                if l.starts_with("src/") {
                    std::panic::resume_unwind(e);
                }
                Err(format!("{l}: {m}"))
            } else {
                Err("panic".into())
            }
        }
    }
}

pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        crate::guard::suspend();
        PANICS.with(|p| p.set(p.get() + 1));
        let inside = IN_CASE.with(|x| *x.borrow());
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((msg, loc));
            } else {
                *p = Some((msg, loc));
            }
        });
        if !inside {
            default(i);
        }
    }));
}

pub fn main(props: Vec<Property>) -> ! {
    let mut a = parse_args();
    install_hook();
    if let Some(f) = &a.replay {
        let j: serde_json::Value =
            serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).unwrap();
        a.prop = j["property"].as_str().unwrap().to_string();
        a.class = Some(j["class"].as_str().unwrap().to_string());
        a.index = Some(j["index"].as_u64().unwrap());
        a.seed = j["seed"].as_u64().unwrap();
        a.tier = j["tier"].as_str().unwrap().to_string();
    }
    let Some(prop) = props.iter().find(|p| p.id == a.prop) else {
        eprintln!("unknown property {}", a.prop);
        std::process::exit(2);
    };
    let known = load_known(&a.known, &a.prop);
    let thorough = a.tier == "thorough";
    let t0 = Instant::now();

    // flat list of work items
    let mut work: Vec<(usize, u64)> = Vec::new();
    for (ci, c) in prop.classes.iter().enumerate() {
        if let Some(n) = &a.class {
            if n != c.name {
                continue;
            }
        }
        let base = if thorough { c.thorough } else { c.quick };
        let n = ((base as f64) * a.scale).ceil() as u64;
        if let Some(i) = a.index {
            work.push((ci, i));
        } else {
            for i in 0..n {
                work.push((ci, i));
            }
        }
    }
    // chunks in a fixed pseudo random order: all classes progress together
    let chunk = 16usize;
    let mut chunks: Vec<&[(usize, u64)]> = work.chunks(chunk).collect();
    Rng::new(a.seed ^ 0xABCD).shuffle(&mut chunks);

    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let known_hit: Mutex<BTreeSet<usize>> = Mutex::new(BTreeSet::new());
    let harness_err: Mutex<Vec<String>> = Mutex::new(vec![]);
    #[derive(Default)]
    struct Acc {
        evals: u64,
        skipped: u64,
        nontrivial: HashSet<u64>,
        ev: BTreeMap<&'static str, u64>,
        per_class: BTreeMap<&'static str, (u64, u64)>,
        samples: BTreeMap<&'static str, (u64, String)>,
        soft: Vec<Found>,
    }
    let acc: Mutex<Acc> = Mutex::new(Acc::default());
    let done = AtomicBool::new(false);
    let threads = if a.index.is_some() { 1 } else { a.threads };

    std::thread::scope(|s| {
        let mut handles = vec![];
        for w in 0..threads {
            let (next, stop, found, acc, chunks, known, known_hit, harness_err, a) =
                (&next, &stop, &found, &acc, &chunks, &known, &known_hit, &harness_err, &a);
            let h = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let slot: &'static Slot = Box::leak(Box::new(Slot {
                        clock: AtomicI64::new(0),
                        start_ns: AtomicU64::new(0),
                        active: AtomicBool::new(false),
                        alloc: AtomicU64::new(0),
                        info: Mutex::new((String::new(), 0, String::new())),
                    }));
                    #[allow(unused_mut)]
                    let mut clk: libc::clockid_t = 0;
                    // SAFETY: own thread handle
                    #[cfg(not(miri))]
                    unsafe {
                        libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk);
                    }
                    slot.clock.store(clk as i64, Ordering::SeqCst);
                    {
                        let mut sl = SLOTS.lock().unwrap();
                        sl.push(slot);
                        let i = sl.len() - 1;
                        SLOT.with(|x| *x.borrow_mut() = Some(i));
                    }
                    let _ = w;
                    let mut l = Acc::default();
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let k = next.fetch_add(1, Ordering::Relaxed) as usize;
                        if k >= chunks.len() {
                            break;
                        }
                        for &(ci, idx) in chunks[k] {
                            let class = &prop.classes[ci];
                            let seed = mix(mix(a.seed ^ hash_str(prop.id)) ^ hash_str(class.name)) ^ mix(idx);
                            let mut c = Case {
                                rng: Rng::new(seed),
                                class: class.name,
                                idx,
                                thorough,
                                input: String::new(),
                                nontrivial: false,
                                skipped: false,
                                ev: BTreeMap::new(),
                                soft: None,
                            };
                            {
                                let mut i = slot.info.lock().unwrap();
                                i.0 = class.name.to_string();
                                i.1 = idx;
                                i.2.clear();
                            }
                            slot.start_ns.store(cpu_ns(clk), Ordering::SeqCst);
                            slot.active.store(true, Ordering::SeqCst);
                            let r = run_one(&mut c, class.f);
                            slot.active.store(false, Ordering::SeqCst);
                            let _ = &slot.alloc;
                            if a.verbose {
                                println!("case {} {}: {:?}\n  input {}", class.name, idx, r, c.input);
                            }
                            match r {
                                Err(e) => {
                                    harness_err.lock().unwrap().push(format!(
                                        "{} {} idx {}: {} input {}",
                                        prop.id, class.name, idx, e, c.input
                                    ));
                                }
                                Ok(Err(f)) => {
                                    if let Some(k) = known
                                        .iter()
                                        .position(|k| k.input == c.input && k.kind == f.kind)
                                    {
                                        known_hit.lock().unwrap().insert(k);
                                    } else {
                                        let mut fo = found.lock().unwrap();
                                        fo.push(Found {
                                            class: class.name,
                                            idx,
                                            fail: f,
                                            input: c.input.clone(),
                                        });
                                        if fo.len() >= a.max_report {
                                            stop.store(true, Ordering::SeqCst);
                                        }
                                    }
                                }
                                Ok(Ok(())) => {}
                            }
                            if let Some(f) = c.soft.take() {
                                l.soft.push(Found { class: class.name, idx, fail: f, input: c.input.clone() });
                            }
                            let pc = l.per_class.entry(class.name).or_default();
                            if c.skipped {
                                l.skipped += 1;
                            } else {
                                l.evals += 1;
                                pc.0 += 1;
                                if c.nontrivial {
                                    pc.1 += 1;
                                    let h = hash_str(&c.input) ^ hash_str(class.name);
                                    l.nontrivial.insert(h);
                                    let smp = l.samples.entry(class.name).or_insert((u64::MAX, String::new()));
                                    if idx < smp.0 {
                                        *smp = (idx, c.input.clone());
                                    }
                                }
                            }
                            for (k, v) in c.ev {
                                *l.ev.entry(k).or_insert(0) += v;
                            }
                        }
                    }
                    let mut g = acc.lock().unwrap();
                    g.evals += l.evals;
                    g.skipped += l.skipped;
                    g.nontrivial.extend(l.nontrivial);
                    for (k, v) in l.ev {
                        *g.ev.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in l.per_class {
                        let e = g.per_class.entry(k).or_default();
                        e.0 += v.0;
                        e.1 += v.1;
                    }
                    g.soft.extend(l.soft);
                    for (k, v) in l.samples {
                        let e = g.samples.entry(k).or_insert((u64::MAX, String::new()));
                        if v.0 < e.0 {
                            *e = v;
                        }
                    }
                })
                .unwrap();
            handles.push(h);
        }
        // watchdog
        let (done_ref, a_ref) = (&done, &a);
        s.spawn(move || {
            while !done_ref.load(Ordering::SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(200));
                let slots = SLOTS.lock().unwrap().clone();
                for sl in slots.iter() {
                    if !sl.active.load(Ordering::SeqCst) {
                        continue;
                    }
                    let now = cpu_ns(sl.clock.load(Ordering::SeqCst) as libc::clockid_t);
                    let st = sl.start_ns.load(Ordering::SeqCst);
                    let over_cpu = now > st + CASE_CPU_BUDGET_S * 1_000_000_000;
                    let over_mem = !cfg!(miri) && rss_bytes() > 20 << 30;
                    if (over_cpu || over_mem) && sl.active.load(Ordering::SeqCst) {
                        let i = sl.info.lock().unwrap().clone();
                        let msg = if over_cpu {
                            format!("case consumed more than {CASE_CPU_BUDGET_S}s of CPU time without returning (cases normally take milliseconds)")
                        } else {
                            "memory grew past 20 GB during the case (unbounded growth)".to_string()
                        };
                        let path = write_replay(a_ref, &i.0, i.1, "no-termination", &msg, &i.2);
                        println!("VIOLATION property={} replay={}", a_ref.prop, path);
                        println!("  [no-termination] {msg}\n  input: {}", i.2);
                        write_min_part(a_ref, &msg);
                        std::process::exit(1);
                    }
                }
            }
        });
        for h in handles {
            if h.join().is_err() {
                harness_err.lock().unwrap().push("worker thread died".into());
            }
        }
        done.store(true, Ordering::SeqCst);
    });

    let mut found = found.into_inner().unwrap();
    found.sort_by(|x, y| (x.class, x.idx).cmp(&(y.class, y.idx)));
    let mut acc = acc.into_inner().unwrap();
    acc.soft.sort_by(|x, y| (x.class, x.idx).cmp(&(y.class, y.idx)));
    let isolated: Vec<serde_json::Value> = acc
        .soft
        .iter()
        .take(5)
        .map(|f| serde_json::json!({"class": f.class, "index": f.idx, "kind": f.fail.kind, "message": f.fail.msg, "input": f.input}))
        .collect();
    if a.verbose || std::env::var("SHOW_SOFT").is_ok() {
        for f in &acc.soft {
            println!("SOFT [{}] class={} index={} {}\n  input: {}", f.fail.kind, f.class, f.idx, f.fail.msg, f.input);
        }
    }
    if a.index.is_none() {
        acc.ev.insert("evaluated_cases", acc.evals);
        for (n, per, max) in prop.rates.iter().chain(&[("view_validation_hits", "evaluated_cases", 1e-4)]) {
            let got = acc.ev.get(n).copied().unwrap_or(0) as f64;
            let of = acc.ev.get(per).copied().unwrap_or(0) as f64;
            if got >= 5.0 && got > max * of {
                for mut f in acc.soft.drain(..).take(3) {
                    f.fail.msg = format!("{} of {} cases deviate ({} per million allowed); first: {}", got, of, max * 1e6, f.fail.msg);
                    found.push(f);
                }
            }
        }
    }
    let known_hit = known_hit.into_inner().unwrap();
    let harness_err = harness_err.into_inner().unwrap();

    for f in &found {
        let path = write_replay(&a, f.class, f.idx, &f.fail.kind, &f.fail.msg, &f.input);
        println!("VIOLATION property={} replay={}", a.prop, path);
        println!("  [{}] class={} index={} {}", f.fail.kind, f.class, f.idx, f.fail.msg);
        println!("  input: {}", f.input);
    }
    for k in &known_hit {
        println!("KNOWN-FINDING: property={} {}", a.prop, known[*k].what);
    }
    let samples: Vec<serde_json::Value> = acc
        .samples
        .iter()
        .map(|(c, (i, s))| {
            let mut s = s.clone();
            if s.len() > 600 {
                let mut e = 600;
                while !s.is_char_boundary(e) {
                    e -= 1;
                }
                s.truncate(e);
                s.push_str("...");
            }
            serde_json::json!({"class": c, "index": i, "input": s})
        })
        .collect();
    let part = serde_json::json!({
        "label": a.label,
        "evaluations": acc.evals,
        "distinct_nontrivial": acc.nontrivial.len(),
        "rejected_inputs": acc.skipped,
        "rule": prop.rule,
        "samples": samples,
        "monitored_events": acc.ev,
        "per_class": acc.per_class.iter().map(|(k,v)| (k.to_string(), serde_json::json!({"evaluations": v.0, "nontrivial": v.1}))).collect::<serde_json::Map<_,_>>(),
        "violations": found.len(),
        "isolated_deviations": isolated,
        "known_findings_hit": known_hit.len(),
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    if !a.out.is_empty() {
        std::fs::write(&a.out, serde_json::to_string_pretty(&part).unwrap()).expect("write part");
    } else {
        println!("{}", serde_json::to_string_pretty(&part).unwrap());
    }
    for e in harness_err.iter().take(5) {
        println!("HARNESS-ERROR {e}");
    }
    if !found.is_empty() {
        std::process::exit(1);
    }
    if !harness_err.is_empty() {
        std::process::exit(2);
    }
    if a.index.is_none() && a.class.is_none() && a.scale >= 1.0 {
        for (n, min) in &prop.floors {
            let got = acc.ev.get(n).copied().unwrap_or(0);
            if got < *min {
                println!("INCONCLUSIVE: only {got} '{n}' events observed, at least {min} needed");
                std::process::exit(3);
            }
        }
    }
    std::process::exit(0);
}

fn write_min_part(a: &Args, msg: &str) {
    if !a.out.is_empty() {
        let part = serde_json::json!({"label": a.label, "evaluations": 0, "distinct_nontrivial": 0, "rule": msg,
            "samples": [], "violations": 1, "wall_s": 0.0});
        let _ = std::fs::write(&a.out, part.to_string());
    }
}

fn rss_bytes() -> u64 {
    let Ok(s) = std::fs::read_to_string("/proc/self/statm") else { return 0 };
    s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096
}
