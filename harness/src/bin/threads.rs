//! Monitors for determinism, purity and concurrent use (and the two builds of the spatial index).
use cavc_monitor::digest::*;
use cavc_monitor::ensure;
use cavalier_contours::polyline::*;
use cavc_monitor::lib_api::*;
use cavc_monitor::rep::*;
use cavc_monitor::rng::{Rng, mix};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Barrier, Mutex};

fn world_ops(seed: u64, n: usize) -> (World, Vec<Op>) {
    let mut r = Rng::new(seed);
    let w = world(&mut r);
    let ops = (0..n).map(|_| Op::new(&mut r, &w)).collect();
    (w, ops)
}
fn wtext(w: &World) -> String {
    w.pls.iter().map(|l| text(&verts(l), l.is_closed())).collect::<Vec<_>>().join(" + ")
}

// ---------------------------------------------------------------- C26

const N: usize = if cfg!(miri) { 6 } else { 24 };
static SCHEDULES: Mutex<Option<HashSet<u64>>> = Mutex::new(None);
#[derive(Clone, Copy)]
struct Call {
    thread: usize,
    op: usize,
    start: u64,
    end: u64,
    digest: u64,
}

/// every thread runs all operations in its own order on the same shared inputs
fn storm(r: &mut Rng, w: &Arc<World>, ops: &[Op], threads: usize) -> Vec<Call> {
    // relaxed: the log may not order the threads it watches
    let clock = Arc::new(AtomicU64::new(0));
    let gate = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let mut q = Rng::new(r.u64());
            let mut order: Vec<usize> = (0..ops.len()).collect();
            if t > 0 {
                // thread 1 runs in the order of thread 0: the same call at the same time
                for k in (1..order.len()).rev() {
                    if t > 1 {
                        order.swap(k, q.below(k + 1));
                    }
                }
            }
            let (w, ops, clock, gate) = (w.clone(), ops.to_vec(), clock.clone(), gate.clone());
            std::thread::spawn(move || {
                let mut log = vec![];
                gate.wait();
                for k in order {
                    match q.below(6) {
                        0 => std::thread::yield_now(),
                        1 => (0..q.below(2000)).for_each(|_| std::hint::spin_loop()),
                        _ => {}
                    }
                    let start = clock.fetch_add(1, Relaxed);
                    let digest = ops[k].run(&w);
                    let end = clock.fetch_add(1, Relaxed);
                    log.push(Call { thread: t, op: k, start, end, digest });
                }
                log
            })
        })
        .collect();
    hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
}

fn c26(c: &mut Case) -> R {
    let seed = c.rng.u64();
    let (w, ops) = world_ops(seed, N);
    c.input(format!("world {seed:#x} ({})", wtext(&w)));
    c.nontrivial();
    let state = w.state();
    let first: Vec<u64> = ops
        .iter()
        .map(|o| {
            progress(&format!("{o:?} in {}", c.inputs()));
            o.run(&w)
        })
        .collect();
    c.ev("operations", ops.len() as u64);
    c.ev("failed_operations", first.iter().filter(|d| **d == FAILED).count() as u64);
    ensure!(w.state() == state, "inputs-modified", "the inputs are not what they were after one pass of read only operations");
    // again, backwards: no operation may depend on what ran before
    for k in (0..ops.len()).rev() {
        ensure!(ops[k].run(&w) == first[k], "not-repeatable", "{:?} gives another result the second time", ops[k]);
        c.ev("repeats", 1);
    }
    // equal inputs built anew at other addresses
    let pad: Vec<Vec<u8>> = (0..c.rng.below(20)).map(|k| vec![0u8; 16 << (k % 6)]).collect();
    let (w2, ops2) = world_ops(seed, N);
    drop(pad);
    ensure!(w2.state() == state, "not-repeatable", "building the indexes and shapes again gives other ones");
    for (k, o) in ops2.iter().enumerate() {
        ensure!(o.run(&w2) == first[k], "not-repeatable", "{o:?} on equal inputs gives another result");
        c.ev("repeats", 1);
    }
    let threads = if cfg!(miri) { 3 } else { c.rng.int(2, 8) as usize };
    // half the time on inputs nobody has looked at yet
    let fresh = c.rng.chance(0.5);
    let w = Arc::new(if fresh { world_ops(seed, N).0 } else { w });
    let mut log = storm(&mut c.rng, &w, &ops, threads);
    for x in &log {
        ensure!(x.digest == first[x.op], "differs-concurrently", "{:?} gives {:#x} next to {threads} threads and {:#x} alone", ops[x.op], x.digest, first[x.op]);
    }
    ensure!(w.state() == state, "inputs-modified", "the inputs are not what they were after use from {threads} threads");
    c.ev("concurrent_calls", log.len() as u64);
    // what the schedule was
    log.sort_by_key(|x| x.start);
    c.ev("switches_between_threads", log.windows(2).filter(|q| q[0].thread != q[1].thread).count() as u64);
    let mut overlaps = 0;
    for (i, x) in log.iter().enumerate() {
        overlaps += log[i + 1..].iter().take_while(|y| y.start < x.end).filter(|y| y.thread != x.thread).count() as u64;
    }
    c.ev("overlapping_call_pairs", overlaps);
    let sig = log.iter().fold(seed, |h, x| mix(h ^ (x.thread as u64) << 32 ^ (x.op as u64) << 8 ^ (x.end - x.start)));
    if SCHEDULES.lock().unwrap().get_or_insert_default().insert(sig) {
        c.ev("distinct_schedules", 1);
    }
    Ok(())
}

/// other processes have other addresses, hash seeds and memory contents
fn c26_processes(c: &mut Case) -> R {
    let (seed, n) = (c.rng.u64(), 20);
    c.input(format!("worlds from {seed:#x} in a process of their own"));
    c.nontrivial();
    let exe = std::env::current_exe().map_err(|e| Fail { kind: "harness".into(), msg: e.to_string() })?;
    let o = std::process::Command::new(exe).args(["--digests", &seed.to_string(), &n.to_string()]).output();
    let Ok(o) = o else { c.skip(); return Ok(()) };
    let theirs = String::from_utf8_lossy(&o.stdout).to_string();
    let ours = digests(seed, n);
    ensure!(theirs.trim_end().ends_with("END"), "process-failed", "the process ended with {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr));
    for (k, (a, b)) in ours.lines().zip(theirs.lines()).enumerate() {
        ensure!(a == b, "differs-between-processes", "line {k}: {a} here, {b} in another process");
        c.ev("cross_process_results", 1);
    }
    Ok(())
}
/// one line per operation
fn digests(seed: u64, n: usize) -> String {
    let mut s = String::new();
    for k in 0..n {
        let (w, ops) = world_ops(mix(seed ^ k as u64), N);
        s += &format!("{k} {:#x}\n", w.state());
        for o in &ops {
            s += &format!("{o:?} {:#x}\n", o.run(&w));
        }
    }
    s + "END\n"
}

// ---------------------------------------------------------------- C29

/// this build (unchecked accesses on, or not) against answers that need no index
fn c29(c: &mut Case) -> R {
    let seed = c.rng.u64();
    let (w, ops) = world_ops(seed, N);
    c.input(format!("world {seed:#x} ({})", wtext(&w)));
    c.nontrivial();
    for o in &ops {
        progress(&format!("{o:?} in {}", c.inputs()));
        let d = o.run(&w);
        c.ev("operations", 1);
        c.ev("failed_operations", (d == FAILED) as u64);
    }
    for (l, ix) in w.pls.iter().zip(&w.approx).chain(w.pls.iter().zip(&w.exact)) {
        let boxes = &ix.all_boxes()[..ix.count()];
        ensure!(ix.count() == l.segment_count(), "count", "{} boxes for {} segments", ix.count(), l.segment_count());
        for _ in 0..4 {
            let (x, y, sx, sy) = (c.rng.range(-6.0, 6.0), c.rng.range(-6.0, 6.0), c.rng.logrange(1e-3, 8.0), c.rng.logrange(1e-3, 8.0));
            let (x2, y2) = (x + sx, y + sy);
            let mut got = ix.query(x, y, x2, y2);
            got.sort();
            let mut want: Vec<usize> = (0..ix.count()).filter(|k| boxes[*k].min_x <= x2 && boxes[*k].max_x >= x && boxes[*k].min_y <= y2 && boxes[*k].max_y >= y).map(|k| ix.all_box_indices()[k]).collect();
            want.sort();
            ensure!(got == want, "query", "boxes {got:?} where {want:?} are in [{x},{y} {x2},{y2}]");
            let mut seen = vec![];
            ix.visit_query(x, y, x2, y2, &mut |k: usize| seen.push(k));
            seen.sort();
            ensure!(seen == want, "query", "visited {seen:?} where {want:?} are in [{x},{y} {x2},{y2}]");
            let mut st = vec![];
            seen = ix.query_iter_with_stack(x, y, x2, y2, &mut st).collect();
            seen.sort();
            ensure!(seen == want, "query", "iterated {seen:?} where {want:?} are in [{x},{y} {x2},{y2}]");
            c.ev("queries", 1);
            c.ev("query_answers", want.len() as u64);
        }
    }
    Ok(())
}

fn main() -> ! {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 4 && a[1] == "--digests" {
        install_hook();
        print!("{}", digests(a[2].parse().unwrap(), a[3].parse().unwrap()));
        std::process::exit(0);
    }
    let cl = |name, quick, thorough, f| Class { name, quick, thorough, f };
    let procs = if cfg!(miri) || cfg!(tsan) { 0 } else { 30 };
    cavc_monitor::rep::main(vec![Property {
        id: "C26",
        rule: "24 operations of 21 kinds on shared polylines, indexes and shapes: alone, repeated, on equal inputs, in another process and by 2 to 8 threads in random orders at once; every case is nontrivial",
        classes: vec![cl("threads", 4000, 200000, c26 as fn(&mut Case) -> R), cl("processes", procs, procs * 20, c26_processes)],
        floors: vec![("operations", 5000), ("repeats", 10000), ("concurrent_calls", 20000), ("overlapping_call_pairs", 100), ("distinct_schedules", 100), ("cross_process_results", 5000)],
        rates: vec![],
    },
    Property {
        id: "C29",
        rule: "operations of 21 kinds and index queries on polylines of up to 600 segments with unchecked accesses on; every case is nontrivial",
        classes: vec![cl("ops", 3000, 300000, c29)],
        floors: vec![("operations", 20000), ("queries", 40000), ("query_answers", 10000)],
        rates: vec![],
    }])
}
