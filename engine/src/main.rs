//! symx: symbolic execution of LLVM bitcode.
//! usage: symx MODULE.bc OUT.json [--jobs N] [--time SECONDS] [--rlimit N] [--dump FILE] [--log DIR EVERY] [--list] --task ENTRY:CASE...
mod exec;
mod expr;
mod fp;
mod ir;
mod llvm;
mod state;
mod z3;

use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn getpid() -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

const PASSES: &str = "globaldce,always-inline,cgscc(inline,function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)),globaldce";

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn hexcov(b: &[u64]) -> String { b.iter().map(|x| format!("{:016x}", x)).collect() }

struct Shared { found: &'static AtomicU64, next: &'static AtomicU64, active: &'static AtomicU64, stop: &'static AtomicU64 }

fn write_part(dir: &str, x: &exec::Exec, per: &BTreeMap<usize, (u64, u64)>) {
    let s = &x.stats;
    let mut o = String::new();
    o.push_str(&format!("S {} {} {} {} {} {} {} {} {} {} {} {} {} {}\n", s.paths, s.assumed_away, s.violated, s.steps, s.forks, s.sat, s.unsat, s.cached, s.asserts_const, s.asserts_solver, s.solver_ns, s.max_depth, s.max_vars, s.max_live));
    o.push_str(&format!("C {}\n", hexcov(&x.cover)));
    for (k, v) in &x.reach { o.push_str(&format!("R {} {}\n", v, k)); }
    for (k, v) in &x.asserts { o.push_str(&format!("A {} {}\n", v, k)); }
    for (k, v) in &x.errors { o.push_str(&format!("E {} {}\n", v, k.replace('\n', " "))); }
    for (k, v) in &x.bad { o.push_str(&format!("X {} {}\n", k, v)); }
    for (k, v) in per { o.push_str(&format!("T {} {} {}\n", k, v.0, v.1)); }
    for (t, i, r) in &x.samples { o.push_str(&format!("P {}\t{}\t{}\n", t, hex(i), r.join("|"))); }
    for v in &x.violations { o.push_str(&format!("V {}\t{}\t{}\t{}\t{}\n", v.task, v.kind, v.msg.replace(['\n', '\t'], " "), hex(&v.input), v.trace.join(" > "))); }
    std::fs::write(format!("{}/{}", dir, unsafe { getpid() }), o).unwrap();
}

fn worker(x: &mut exec::Exec, tasks: &[(u32, u64)], sh: &Shared, dir: &str, jobs: u64, t00: std::time::Instant, after: u64) -> ! {
    let mut kids: Vec<i32> = vec![];
    let mut per: BTreeMap<usize, (u64, u64)> = BTreeMap::new();
    // tasks put aside when their time slice was over
    let mut stash: std::collections::VecDeque<(usize, u64, u64, Vec<state::State>)> = Default::default();
    let mut slice = std::time::Duration::from_secs(15);
    x.stop = Some(sh.stop);
    loop {
        let until = std::time::Instant::now() + slice;
        while let Some(st) = x.work.pop() {
            if sh.stop.load(SeqCst) != 0 { x.work.clear(); break; }
            let t0 = std::time::Instant::now();
            if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.run(st, until))) {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                *x.errors.entry(format!("engine: {}", m)).or_insert(0) += 1;
                *x.bad.entry(x.task).or_insert(0) += 1;
            }
            let e = per.entry(x.task).or_insert((0, 0));
            e.0 += 1;
            e.1 += t0.elapsed().as_micros() as u64;
            let now = std::time::Instant::now();
            if now > x.deadline {
                for (t, w) in stash.drain(..).map(|(t, _, _, w)| (t, w)).chain(std::iter::once((x.task, std::mem::take(&mut x.work)))) {
                    if w.is_empty() { continue; }
                    *x.errors.entry("time limit".into()).or_insert(0) += w.len() as u64;
                    *x.bad.entry(t).or_insert(0) += w.len() as u64;
                }
            }
            // with a counterexample in hand, the rest gets a little more time
            if x.stats.violated > 0 { sh.found.compare_exchange(0, t00.elapsed().as_millis() as u64 + 1, SeqCst, SeqCst).ok(); }
            let f = sh.found.load(SeqCst);
            if f != 0 && (t00.elapsed().as_millis() as u64) > f + after * 1000 { sh.stop.store(1, SeqCst); }
            // enough counterexamples to this task, or no hope for it
            if x.task_violated >= 100 || x.bad.get(&x.task).map_or(false, |n| *n > 30) { x.work.clear(); }
            if x.violations.len() >= x.max_violations { sh.stop.store(1, SeqCst); }
            if x.work.len() >= 4 && sh.active.load(SeqCst) < jobs {
                sh.active.fetch_add(1, SeqCst);
                let pid = unsafe { fork() };
                if pid < 0 { sh.active.fetch_sub(1, SeqCst); continue; }
                let all = std::mem::take(&mut x.work);
                let child = pid == 0;
                // interleave, so that both get some of the old (large) states
                x.work = all.into_iter().enumerate().filter(|(i, _)| (i % 2 == 1) == child).map(|(_, s)| s).collect();
                if child {
                    kids.clear();
                    stash.clear();
                    per.clear();
                    x.stats = Default::default();
                    x.violations.clear();
                    x.errors.clear();
                    x.bad.clear();
                    x.reach.clear();
                    x.asserts.clear();
                    x.samples.clear();
                    for c in &mut x.cover { *c = 0 }
                } else { kids.push(pid); }
            }
            if now > until { break; }
        }
        if !x.work.is_empty() { stash.push_back((x.task, x.task_violated, x.task_paths, std::mem::take(&mut x.work))); }
        if sh.stop.load(SeqCst) != 0 { break; }
        let t = sh.next.fetch_add(1, SeqCst) as usize;
        if t < tasks.len() {
            x.task = t;
            x.task_violated = 0;
            x.task_paths = 0;
            x.start(tasks[t].0, tasks[t].1);
        } else if let Some((t, v, p, w)) = stash.pop_front() {
            slice = std::time::Duration::from_secs(60);
            x.task = t;
            x.task_violated = v;
            x.task_paths = p;
            x.work = w;
        } else { break; }
    }
    write_part(dir, x, &per);
    sh.active.fetch_sub(1, SeqCst);
    for k in kids {
        let mut s = 0;
        unsafe { waitpid(k, &mut s, 0); }
        if s != 0 { std::fs::write(format!("{}/crash{}", dir, k), format!("E 1 worker process ended with status {}\n", s)).unwrap(); }
    }
    unsafe { _exit(0) }
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let (mut jobs, mut time, mut rlimit, mut dump, mut list, mut log, mut after) = (8u64, 600u64, 50_000_000u32, None, false, None, 1000000u64);
    let mut tasks: Vec<(String, u64)> = vec![];
    let mut i = 3;
    while i < args.len() {
        match args[i].as_str() {
            "--jobs" => { i += 1; jobs = args[i].parse().unwrap() }
            "--time" => { i += 1; time = args[i].parse().unwrap() }
            "--rlimit" => { i += 1; rlimit = args[i].parse().unwrap() }
            "--dump" => { i += 1; dump = Some(args[i].clone()) }
            "--after" => { i += 1; after = args[i].parse().unwrap() }
            "--log" => { i += 2; log = Some((args[i - 1].clone(), args[i].parse::<u64>().unwrap())) }
            "--list" => list = true,
            "--task" => {
                i += 1;
                let (n, c) = args[i].split_once(':').unwrap_or((&args[i], "0"));
                let (lo, hi) = match c.split_once('-') { Some((a, b)) => (a.parse::<u64>().unwrap(), b.parse::<u64>().unwrap()), None => { let k = c.parse::<u64>().unwrap(); (k, k) } };
                for k in lo..=hi { tasks.push((n.to_string(), k)); }
            }
            a => { eprintln!("unknown argument {}", a); std::process::exit(2) }
        }
        i += 1;
    }
    let t0 = std::time::Instant::now();
    let mut l = llvm::load(&args[1], PASSES, dump.as_deref());
    let prog: &'static ir::Program = Box::leak(Box::new(l.program()));
    if list {
        for (f, n) in prog.funcs.iter().zip(&prog.fnames) { match f { Some(f) => println!("{} {} blocks {}", if f.ours { "OURS" } else { "    " }, f.blocks.len(), llvm::pretty(n)), None => println!("EXT  {}", n) } }
        return;
    }
    let load_ms = t0.elapsed().as_millis();
    let mut tl = vec![];
    for (n, c) in &tasks {
        match prog.entry.get(n) { Some(e) => tl.push((*e, *c)), None => { eprintln!("no entry {}", n); std::process::exit(3) } }
    }
    let sh = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut AtomicU64;
        Shared { found: &*p.add(3), next: &*p, active: &*p.add(1), stop: &*p.add(2) }
    };
    let dir = format!("{}.parts", args[2]);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let n0 = jobs.min(tl.len() as u64).max(1);
    sh.active.store(n0, SeqCst);
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(time);
    let mut kids = vec![];
    for _ in 0..n0 {
        let pid = unsafe { fork() };
        if pid == 0 {
            let mut x = exec::Exec::new(prog, z3::Z3::new(rlimit), deadline);
            x.z3.log = log;
            worker(&mut x, &tl, &sh, &dir, jobs, t0, after);
        }
        kids.push(pid);
    }
    let mut errors: BTreeMap<String, u64> = BTreeMap::new();
    for k in kids {
        let mut s = 0;
        unsafe { waitpid(k, &mut s, 0); }
        if s != 0 { *errors.entry(format!("worker process ended with status {}", s)).or_insert(0) += 1; }
    }
    // merge
    let mut st = [0u64; 14];
    let mut cover: Vec<u64> = vec![0; prog.our_blocks as usize / 64 + 1];
    let (mut reach, mut asserts): (BTreeMap<String, u64>, BTreeMap<String, u64>) = Default::default();
    let mut per: BTreeMap<usize, (u64, u64)> = BTreeMap::new();
    let mut viol: Vec<Vec<String>> = vec![];
    let mut bad = std::collections::BTreeSet::new();
    let mut samples: Vec<Vec<String>> = vec![];
    for f in std::fs::read_dir(&dir).unwrap() {
        for line in std::fs::read_to_string(f.unwrap().path()).unwrap().lines() {
            let (k, r) = line.split_at(1);
            let r = &r[1..];
            let kv = || { let (a, b) = r.split_once(' ').unwrap(); (b.to_string(), a.parse::<u64>().unwrap()) };
            match k {
                "S" => for (i, x) in r.split(' ').enumerate() { let v: u64 = x.parse().unwrap(); if i >= 11 { st[i] = st[i].max(v) } else { st[i] += v } },
                "C" => for (i, c) in cover.iter_mut().enumerate() { *c |= u64::from_str_radix(&r[i * 16..i * 16 + 16], 16).unwrap() },
                "R" => { let (a, b) = kv(); *reach.entry(a).or_insert(0) += b }
                "A" => { let (a, b) = kv(); *asserts.entry(a).or_insert(0) += b }
                "E" => { let (a, b) = kv(); *errors.entry(a).or_insert(0) += b }
                "T" => { let v: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap()).collect(); let e = per.entry(v[0] as usize).or_insert((0, 0)); e.0 += v[1]; e.1 += v[2]; }
                "X" => { let (a, _) = r.split_once(' ').unwrap(); bad.insert(a.parse::<usize>().unwrap()); }
                "P" => samples.push(r.split('\t').map(|x| x.to_string()).collect::<Vec<_>>()),
                "V" => viol.push(r.split('\t').map(|x| x.to_string()).collect()),
                _ => {}
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let names = ["paths", "assumed_away", "violated", "steps", "forks", "sat", "unsat", "cached", "asserts_const", "asserts_solver", "solver_ns", "max_depth", "max_vars", "max_live"];
    let mut o = String::from("{\n");
    for (n, v) in names.iter().zip(st) { o.push_str(&format!(" {}: {},\n", esc(n), v)); }
    o.push_str(&format!(" \"solver\": {},\n \"load_ms\": {},\n \"wall_ms\": {},\n", esc(&z3::version()), load_ms, t0.elapsed().as_millis()));
    let map = |m: &BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "));
    o.push_str(&format!(" \"reach\": {},\n \"asserts\": {},\n \"errors\": {},\n", map(&reach), map(&asserts), map(&errors)));
    o.push_str(&format!(" \"tasks\": [{}],\n", per.iter().map(|(t, (n, us))| format!("{{\"entry\": {}, \"case\": {}, \"states\": {}, \"ms\": {}}}", esc(&tasks[*t].0), tasks[*t].1, n, us / 1000)).collect::<Vec<_>>().join(", ")));
    o.push_str(&format!(" \"unfinished\": [{}],\n", bad.iter().map(|t| esc(&format!("{}:{}", tasks[*t].0, tasks[*t].1))).collect::<Vec<_>>().join(", ")));
    o.push_str(&format!(" \"not_started\": {},\n", tl.len().saturating_sub(sh.next.load(SeqCst) as usize)));
    o.push_str(&format!(" \"samples\": [{}],\n", samples.iter().map(|v| {
        let t: usize = v[0].parse().unwrap();
        format!("{{\"entry\": {}, \"case\": {}, \"input\": {}, \"reach\": {}}}", esc(&tasks[t].0), tasks[t].1, esc(&v[1]), esc(&v[2]))
    }).collect::<Vec<_>>().join(",\n ")));
    let mut fs = vec![];
    for f in prog.funcs.iter().flatten().filter(|f| f.ours) {
        let n = (0..f.blocks.len() as u32).filter(|b| { let i = (f.block_base + b) as usize; cover[i / 64] >> (i % 64) & 1 != 0 }).count();
        if n > 0 { fs.push(format!("{{\"name\": {}, \"blocks\": {}, \"covered\": {}}}", esc(&llvm::pretty(&f.name)), f.blocks.len(), n)); }
    }
    o.push_str(&format!(" \"functions\": [{}],\n", fs.join(", ")));
    o.push_str(&format!(" \"violations\": [{}]\n}}\n", viol.iter().map(|v| {
        let t: usize = v[0].parse().unwrap();
        format!("{{\"entry\": {}, \"case\": {}, \"kind\": {}, \"msg\": {}, \"input\": {}, \"trace\": {}}}", esc(&tasks[t].0), tasks[t].1, esc(&v[1]), esc(&v[2]), esc(&v[3]), esc(&v[4]))
    }).collect::<Vec<_>>().join(",\n ")));
    std::fs::write(&args[2], o).unwrap();
}

fn main() {
    std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap().join().unwrap();
}
