//! irsym: bounded symbolic execution of LLVM IR with Z3.
//!
//! usage: irsym --ll FILE --out FILE [--tier N] [--jobs N] [--time SECS] [--steps N] [--depth N] HARNESS...
mod exec;
mod expr;
mod ir;
mod mem;
mod z3;

use exec::*;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn prctl(op: i32, a: usize, b: usize, c: usize, d: usize) -> i32;
    fn getpid() -> i32;
}

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2 + 1);
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    if s.is_empty() {
        s.push('-');
    }
    s
}

fn one_line(s: &str) -> String {
    s.chars().map(|c| if c == '\n' { ' ' } else { c }).collect()
}

/// Line-based result records; merged by the runner.
fn dump(x: &Exec, names: &[String]) -> String {
    let mut o = String::new();
    let s = &x.st;
    for (k, v) in [
        ("paths", s.paths),
        ("assumed_away", s.assumed_away),
        ("instructions", s.instrs),
        ("z3_queries", s.z3_queries),
        ("z3_sat", s.z3_sat),
        ("z3_unsat", s.z3_unsat),
        ("z3_unknown", s.z3_unknown),
        ("z3_us", s.z3_us),
        ("cache_hits", s.cache_hits),
        ("table_answers", s.table_answers),
        ("asserts_checked", s.asserts_checked),
        ("asserts_symbolic", s.asserts_symbolic),
        ("forks", s.forks),
    ] {
        let _ = writeln!(o, "S {k} {v}");
    }
    let _ = writeln!(o, "X z3_max_us {}", s.z3_max_us);
    for (h, n) in &x.per_harness {
        let _ = writeln!(o, "P {} {n}", names[*h as usize]);
    }
    for f in &x.findings {
        let kind = match &f.end {
            End::Assert(i) => format!("assert:{i}"),
            End::Panic(_) => "panic".into(),
            End::Mem(m) => format!("memory:{}", one_line(m).replace(' ', "_")),
            End::Steps => "hang".into(),
            End::Depth => "stack-overflow".into(),
            End::HeapLimit => "memory-exhaustion".into(),
            e => format!("{e:?}").replace(' ', "_"),
        };
        let _ = writeln!(o, "F {} {kind} {} {}", names[f.harness as usize], hex(&f.input), one_line(&f.at));
    }
    for (m, n) in &x.lost {
        let _ = writeln!(o, "L {n} {}", one_line(m));
    }
    for ((h, c), n) in &x.covers {
        let _ = writeln!(o, "C {} {c} {n}", names[*h as usize]);
    }
    for (i, b) in x.funcs_seen.iter().enumerate() {
        if *b {
            let _ = writeln!(o, "U {}", demangle(&x.m.funcs[i].name));
        }
    }
    for m in &x.samples {
        let obs: Vec<String> = m.obs.iter().map(|v| v.to_string()).collect();
        let _ = writeln!(
            o,
            "M {} {} {}",
            names[m.harness as usize],
            hex(&m.input),
            if obs.is_empty() { "-".to_string() } else { obs.join(",") }
        );
    }
    for (cs, sat) in &x.smt_dump {
        let _ = writeln!(o, "Q {} {}", *sat as u8, z3::to_smtlib(cs).replace('\n', " "));
    }
    if x.timed_out {
        let _ = writeln!(o, "T 1");
    }
    o
}

/// A worker starts from empty counters.
fn fresh(x: &mut Exec, j: usize) {
    x.st = Stats::default();
    x.findings.clear();
    x.lost.clear();
    x.samples.clear();
    x.covers.clear();
    x.per_harness.clear();
    x.smt_dump.clear();
    x.sample_cap = (x.sample_cap / 2).max(8);
    x.reseed(j as u64 + 1);
}

/// Runs the worker's own states; shares them when the seeds are used up and a slot is free.
fn drain(
    x: &mut Exec,
    nseeds: usize,
    ctr: &AtomicUsize,
    alive: &AtomicUsize,
    part_no: &AtomicUsize,
    jobs: usize,
) {
    while let Some(s) = x.work.pop_back() {
        if x.timed_out || x.out_of_time() {
            return;
        }
        x.run(s);
        if x.work.len() < 2 || ctr.load(Ordering::Relaxed) < nseeds {
            continue;
        }
        let n = alive.load(Ordering::SeqCst);
        if n >= jobs || alive.compare_exchange(n, n + 1, Ordering::SeqCst, Ordering::SeqCst).is_err() {
            continue;
        }
        // shallow states are at the front: the bigger subtrees; deal them out evenly
        let pid = unsafe { fork() };
        if pid < 0 {
            alive.fetch_sub(1, Ordering::SeqCst);
            continue;
        }
        let all: Vec<State> = x.work.drain(..).collect();
        for (k, st) in all.into_iter().enumerate() {
            if (k % 2 == 0) == (pid == 0) {
                x.work.push_back(st);
            }
        }
        if pid == 0 {
            fresh(x, part_no.load(Ordering::SeqCst) + 97 + k_salt());
        }
    }
}
fn k_salt() -> usize {
    unsafe { getpid() as usize }
}

fn main() {
    let mut ll = String::new();
    let mut out = String::new();
    let (mut tier, mut jobs, mut secs, mut steps, mut depth) = (0u32, 8usize, 600u64, 30_000_000u64, 1200usize);
    let mut heap = 64u64 << 20;
    let mut names: Vec<String> = vec![];
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        let mut nx = || a.next().expect("argument value");
        match x.as_str() {
            "--ll" => ll = nx(),
            "--out" => out = nx(),
            "--tier" => tier = nx().parse().unwrap(),
            "--jobs" => jobs = nx().parse().unwrap(),
            "--time" => secs = nx().parse().unwrap(),
            "--steps" => steps = nx().parse().unwrap(),
            "--depth" => depth = nx().parse().unwrap(),
            "--heap" => heap = nx().parse().unwrap(),
            _ => names.push(x),
        }
    }
    let t0 = Instant::now();
    let m = match ir::Module::load(&ll) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("irsym: {e}");
            std::process::exit(70);
        }
    };
    let cfg = Cfg { max_steps: steps, max_depth: depth, max_heap: heap, tier, stop_after: 0 };
    let mut x = Exec::new(m, cfg);
    x.deadline = Some(t0 + Duration::from_secs(secs));
    for (i, n) in names.iter().enumerate() {
        match x.start(i as u32, n) {
            Ok(s) => x.work.push_back(s),
            Err(e) => {
                eprintln!("irsym: {e}");
                std::process::exit(70);
            }
        }
    }
    let target = jobs * 120;
    let seed_limit = Duration::from_secs((secs / 6).clamp(2, 12));
    while !x.work.is_empty() && x.work.len() < target && t0.elapsed() < seed_limit {
        let s = x.work.pop_front().unwrap();
        x.run_seed(s);
    }
    let mut f = std::fs::File::create(&out).expect("output file");
    if x.work.is_empty() || jobs == 1 {
        while let Some(s) = x.work.pop_back() {
            if x.timed_out || x.out_of_time() {
                break;
            }
            x.run(s);
        }
        f.write_all(dump(&x, &names).as_bytes()).unwrap();
    } else {
        let page = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const AtomicUsize;
        // next seed to take; workers alive; parts written
        let (ctr, alive, part_no) = unsafe { (&*page, &*page.add(8), &*page.add(16)) };
        // workers hand half of their work to a forked child when a slot is free; the orphans of
        // a finished worker become children of this process
        unsafe { prctl(36, 1usize, 0usize, 0usize, 0usize) };
        let mut states: Vec<Option<State>> = x.work.drain(..).map(Some).collect();
        f.write_all(dump(&x, &names).as_bytes()).unwrap();
        drop(f);
        alive.store(jobs, Ordering::SeqCst);
        for j in 0..jobs {
            let pid = unsafe { fork() };
            if pid == 0 {
                fresh(&mut x, j);
                loop {
                    let i = ctr.fetch_add(1, Ordering::Relaxed);
                    if i >= states.len() || x.timed_out {
                        break;
                    }
                    x.work.push_back(states[i].take().unwrap());
                    drain(&mut x, states.len(), ctr, alive, part_no, jobs);
                }
                let part = part_no.fetch_add(1, Ordering::SeqCst);
                let r = std::fs::write(format!("{out}.{part}"), dump(&x, &names));
                alive.fetch_sub(1, Ordering::SeqCst);
                unsafe { _exit(if r.is_ok() { 0 } else { 71 }) }
            }
            if pid < 0 {
                alive.fetch_sub(1, Ordering::SeqCst);
            }
        }
        let mut o = std::fs::OpenOptions::new().append(true).open(&out).unwrap();
        loop {
            let mut st = 0;
            let p = unsafe { waitpid(-1, &mut st, 0) };
            if p <= 0 {
                break;
            }
            if st != 0 {
                let _ = writeln!(o, "W worker {p} ended with status {st}");
            }
        }
        for j in 0..part_no.load(Ordering::SeqCst) {
            let part = format!("{out}.{j}");
            if let Ok(d) = std::fs::read(&part) {
                o.write_all(&d).unwrap();
                let _ = std::fs::remove_file(&part);
            }
        }
    }
    eprintln!("irsym: {:.1}s", t0.elapsed().as_secs_f64());
}
