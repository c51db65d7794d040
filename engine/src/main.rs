mod exec;
mod expr;
mod ir;
mod keccak;
mod mem;
mod z3;

use std::io::Write;
use std::sync::atomic::{AtomicI64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

struct Shared { active: AtomicI64, stop: AtomicI64, viols: AtomicI64, paths: AtomicI64 }

fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n") }

fn main() {
    // symir MODULE.ll OUTDIR --procs N --budget SECS [--samples K] [-v] harness...
    let args: Vec<String> = std::env::args().collect();
    let mut procs = 8i64;
    let mut budget = 600f64;
    let mut samples = 4usize;
    let mut verbose = false;
    let mut rlimit = 0u32;
    let (mut audit, mut seed) = (0u64, 0u64);
    let mut pos = vec![];
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--procs" => { i += 1; procs = args[i].parse().unwrap(); }
            "--budget" => { i += 1; budget = args[i].parse().unwrap(); }
            "--samples" => { i += 1; samples = args[i].parse().unwrap(); }
            "--rlimit" => { i += 1; rlimit = args[i].parse().unwrap(); }
            "--audit" => { i += 1; audit = args[i].parse().unwrap(); }
            "--seed" => { i += 1; seed = args[i].parse().unwrap(); }
            "-v" => verbose = true,
            a => pos.push(a.to_string()),
        }
        i += 1;
    }
    // big stack: expression recursion
    let th = std::thread::Builder::new().stack_size(1 << 30).spawn(move || run(pos, procs, budget, samples, verbose, rlimit, audit, seed)).unwrap();
    std::process::exit(th.join().unwrap_or(3));
}

fn run(pos: Vec<String>, procs: i64, budget: f64, samples: usize, verbose: bool, rlimit: u32, audit: u64, seed: u64) -> i32 {
    let t0 = Instant::now();
    let src = std::fs::read(&pos[0]).expect("module");
    let out = pos[1].clone();
    std::fs::create_dir_all(&out).unwrap();
    let m: &'static ir::Module = match ir::Module::load(src) { Ok(m) => Box::leak(Box::new(m)), Err(e) => { eprintln!("ENGINE-ERROR {}", e); return 3; } };
    if verbose { eprintln!("loaded {} functions, {} globals in {:?}", m.funcs.len(), m.globals.len(), t0.elapsed()); }
    let _ = unsafe { setrlimit(9, &[24u64 << 30, 24u64 << 30]) };
    let sh: &'static Shared = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared) };
    sh.active.store(0, Ordering::SeqCst);
    let mut kids = vec![];
    let deadline = t0 + Duration::from_secs_f64(budget);
    for h in &pos[2..] {
        // wait for a free slot
        while sh.active.load(Ordering::SeqCst) >= procs { reap(&mut kids, false); std::thread::sleep(Duration::from_millis(5)); }
        sh.active.fetch_add(1, Ordering::SeqCst);
        let hv: &'static Shared = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared) };
        let pid = unsafe { fork() };
        if pid == 0 {
            let _ = std::fs::remove_file(format!("{}/{}.res", out, h));
            worker(m, h, &out, sh, hv, procs, deadline, samples, verbose, rlimit, audit, seed);
        }
        kids.push(pid);
    }
    let mut bad = 0;
    while !kids.is_empty() { bad += reap(&mut kids, true); }
    if verbose { eprintln!("total {:?}", t0.elapsed()); }
    if bad > 0 { 3 } else { 0 }
}

fn reap(kids: &mut Vec<i32>, block: bool) -> i32 {
    let mut bad = 0;
    kids.retain(|&k| { let mut s = 0; let r = unsafe { waitpid(k, &mut s, if block { 0 } else { 1 }) }; if r == k { if s != 0 { bad += 1; } false } else { true } });
    bad
}

fn worker(m: &'static ir::Module, h: &str, out: &str, sh: &'static Shared, hv: &'static Shared, procs: i64, deadline: Instant, samples: usize, verbose: bool, rlimit: u32, audit: u64, seed: u64) -> ! {
    let t0 = Instant::now();
    let mut e = exec::Engine::new(m, rlimit);
    e.verbose = verbose;
    e.max_samples = samples;
    e.deadline = deadline;
    e.audit = audit;
    e.seed = seed;
    match e.start(h) { Ok(s) => e.work.push(s), Err(x) => { eprintln!("ENGINE-ERROR {}", x); unsafe { _exit(3) } } }
    let mut kids: Vec<i32> = vec![];
    let mut n = 0u64;
    let mut timed_out = false;
    let mut root = true;
    let mut seen = 0;
    while let Some(st) = e.work.pop() {
        e.st.paths += 1;
        e.run(st);
        n += 1;
        if hv.viols.load(Ordering::Relaxed) > 500 { hv.stop.store(1, Ordering::Relaxed); }
        if Instant::now() > deadline { timed_out = true; break; }
        if hv.stop.load(Ordering::Relaxed) != 0 { break; }
        // enough to report: every further violation would repeat these
        if e.st.viol > seen { hv.viols.fetch_add((e.st.viol - seen) as i64, Ordering::Relaxed); seen = e.st.viol; }
        // share work when a slot is free
        if e.work.len() >= 2 && sh.active.load(Ordering::SeqCst) < procs {
            if sh.active.fetch_add(1, Ordering::SeqCst) < procs {
                let pid = unsafe { fork() };
                if pid == 0 {
                    // child: every other state
                    let w = std::mem::take(&mut e.work);
                    e.work = w.into_iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|x| x.1).collect();
                    e.st = exec::Stats::default();
                    seen = 0;
                    e.viols.clear();
                    e.unsup.clear();
                    e.reach.clear();
                    e.samples.clear();
                    e.prof.clear();
                    for f in &m.funcs { f.calls.set(0); }
                    kids.clear();
                    root = false;
                } else if pid > 0 {
                    kids.push(pid);
                    let w = std::mem::take(&mut e.work);
                    e.work = w.into_iter().enumerate().filter(|(i, _)| i % 2 == 1).map(|x| x.1).collect();
                } else { sh.active.fetch_sub(1, Ordering::SeqCst); }
            } else { sh.active.fetch_sub(1, Ordering::SeqCst); }
        }
    }
    e.st.left = e.work.len() as u64;
    // one record per process
    let s = &e.st;
    let mut r = String::new();
    r.push_str(&format!("{{\"harness\":\"{}\",\"paths\":{},\"done\":{},\"infeasible\":{},\"unsup\":{},\"viol\":{},\"steps\":{},\"forks\":{},\"merges\":{},\"q\":{},\"q_sat\":{},\"q_unsat\":{},\"q_unk\":{},\"q_ms\":{:.1},\"q_cached\":{},\"dom\":{},\"asserts\":{},\"asserts_z3\":{},\"asserts_const\":{},\"left\":{},\"audited\":{},\"eq_q\":{},\"timeout\":{},\"root\":{},\"wall\":{:.2},\"z3\":\"{}\"", h, s.paths, s.done, s.infeasible, s.unsup, s.viol, s.steps, s.forks, s.merges, s.q, s.q_sat, s.q_unsat, s.q_unk, s.q_ms, s.q_cached, s.dom, s.asserts, s.asserts_z3, s.asserts_const, s.left, s.audited, s.eq_q, timed_out, root, t0.elapsed().as_secs_f64(), e.z3.version));
    r.push_str(",\"reach\":{");
    r.push_str(&e.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    r.push_str("},\"unsupported\":{");
    r.push_str(&e.unsup.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(","));
    r.push_str("},\"violations\":[");
    r.push_str(&e.viols.iter().map(|v| format!("{{\"kind\":\"{}\",\"msg\":\"{}\",\"input\":\"{}\",\"trace\":\"{}\"}}", v.kind, esc(&v.msg), v.input, esc(&v.trace))).collect::<Vec<_>>().join(","));
    r.push_str("],\"samples\":[");
    r.push_str(&e.samples.iter().map(|v| format!("\"{}\"", v)).collect::<Vec<_>>().join(","));
    r.push_str("],\"funcs\":{");
    r.push_str(&m.funcs.iter().filter(|f| f.calls.get() > 0).map(|f| format!("\"{}\":{}", esc(&f.name), f.calls.get())).collect::<Vec<_>>().join(","));
    r.push_str("}}\n");
    if verbose {
        let mut p: Vec<_> = e.prof.iter().collect();
        p.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, b), n) in p.iter().take(15) { eprintln!("[{}] {} branches{} at block {} of {}", h, n, if b & 0x8000_0000 != 0 { " (values)" } else { "" }, b & 0x7fff_ffff, m.funcs[*f as usize].name); }
    }
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(format!("{}/{}.res", out, h)).unwrap();
    f.write_all(r.as_bytes()).unwrap();
    drop(f);
    sh.active.fetch_sub(1, Ordering::SeqCst);
    let _ = &hv.paths;
    let mut bad = 0;
    for k in kids { let mut s = 0; unsafe { waitpid(k, &mut s, 0) }; if s != 0 { bad = 1; } }
    unsafe { _exit(if bad != 0 { 3 } else { 0 }) }
}
