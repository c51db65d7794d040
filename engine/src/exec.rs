//! The symbolic executor.
use crate::expr::{self, cst, konst, mask, sx, X};
use crate::ir::*;
use crate::keccak::keccak256;
use crate::mem::{Mem, Obj, HEAP0};
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame { pub f: u32, pub body: &'static Body, pub block: u32, pub ip: usize, pub regs: Vec<Val>, pub allocas: Vec<u64>, pub ret: Option<u32>, pub normal: Option<u32> }

#[derive(Clone, Debug)]
pub enum Inp { Bytes(u32, u32), Choice(u64) }

#[derive(Clone, Copy)]
pub struct VarInfo { pub dom: [u64; 4], pub ent: bool }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<X>,
    pub model: Rc<Vec<u8>>,
    pub vars: Rc<Vec<VarInfo>>,
    pub nvars: u32,
    pub known: Rc<HashMap<X, u128>>,
    pub choice: Option<u64>,
    pub inputs: Rc<Vec<Inp>>,
    pub obs: Rc<Vec<Vec<X>>>,
    pub hashes: Rc<Vec<(Vec<X>, Vec<X>)>>,
    pub steps: u64,
    pub alloc_live: u64,
    pub alloc_total: u64,
    pub alloc_peak: u64,
    pub alloc_base: u64,
    pub alloc_max: u64,
    pub alloc_limit: u64,
    pub fds: Rc<HashMap<u64, (Rc<Vec<u8>>, usize)>>,
    pub files: Rc<Vec<(Vec<u8>, u64, u64)>>,
    pub errno: u64,
    pub reach: Rc<Vec<u32>>,
    pub nomerge: bool, pub lin: bool,
    pub ascii: bool, pub hash_seed: u64,
}

const LIVE_MAX: u64 = 1 << 30;
pub enum Stop { Viol(String, String), Conc(X), Choice(u64), Unsup(String), Done(&'static str), Infeasible, Jumped }
type S<T> = Result<T, Stop>;

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64, pub done: u64, pub infeasible: u64, pub unsup: u64, pub viol: u64, pub steps: u64, pub forks: u64, pub merges: u64,
    pub q: u64, pub q_sat: u64, pub q_unsat: u64, pub q_unk: u64, pub q_ms: f64, pub q_cached: u64, pub dom: u64, pub asserts: u64, pub asserts_z3: u64, pub asserts_const: u64, pub audited: u64, pub eq_q: u64,
    pub left: u64,
}
pub struct Violation { pub kind: String, pub msg: String, pub input: String, pub trace: String }

pub struct Engine {
    pub m: &'static Module,
    pub base: Vec<Rc<Obj>>,
    pub z3: Z3,
    pub cache: HashMap<Vec<X>, Option<Rc<Vec<(u32, u8)>>>>,
    pub work: Vec<State>,
    pub st: Stats,
    pub viols: Vec<Violation>,
    pub unsup: BTreeMap<String, u64>,
    pub reach: BTreeMap<u32, u64>,
    pub samples: Vec<String>,
    pub max_samples: usize,
    pub verbose: bool,
    pub max_conc: usize,
    pub max_steps: u64,
    pub deadline: Instant,
    pub late: bool,
    pub audit: u64,
    pub seed: u64,
    pub mux_max: usize,
    pub mux_heap: usize,
    pub prof: HashMap<(u32, u32), u64>,
    pub pure: HashMap<(u32, u32), bool>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u32)]
pub enum N {
    None = 0, Nop, Memcpy, Memset, UMin, UMax, SMin, SMax, USubSat, UAddSat, SSubSat, SAddSat, Fshl, Fshr, Ctlz, Cttz, Ctpop, Bswap, Bitrev, Abs, UCmp, SCmp,
    UMulO, SMulO, UAddO, SAddO, USubO, SSubO, Id0, IsConst, Trap, Fabs, Expect,
    RAlloc, RDealloc, RRealloc, RZalloc, Malloc, Calloc, Realloc, Free, PosixMemalign, Memcmp, Bcmp, Strlen, CMemcpy, CMemset,
    Panic, AllocErr, Abort, Exit,
    SymBytes, SymChoice, SymAssume, SymAssert, SymReach, SymKeccak, SymConc, SymAllocReset, SymAllocTotal, SymAllocPeak, SymAllocMax, SymAllocLimit, SymObserve, SymFile, SymNoMerge, SymPrint,
    Getenv, Syscall, Errno, Write, Open, Read, Close, Fstat, Lseek, Zero, MinusOne, Bad, VecReduceOr, VecReduceAnd, VecReduceAdd,
    SymDone, SymOpt, Getrandom, SymSame, Utf8,
}

fn native(name: &str, defined: bool) -> N {
    if let Some(r) = name.strip_prefix("llvm.") {
        let s = |p: &str| r.starts_with(p);
        if s("memcpy.") || s("memmove.") { return N::Memcpy; }
        if s("memset.") { return N::Memset; }
        if s("lifetime.") || s("assume") || s("experimental.noalias") || s("dbg.") || s("prefetch") || s("x86.sse2.pause") || s("sideeffect") || s("donothing") || s("invariant.") { return N::Nop; }
        for (p, n) in [("umin.", N::UMin), ("umax.", N::UMax), ("smin.", N::SMin), ("smax.", N::SMax), ("usub.sat.", N::USubSat), ("uadd.sat.", N::UAddSat), ("ssub.sat.", N::SSubSat), ("sadd.sat.", N::SAddSat), ("fshl.", N::Fshl), ("fshr.", N::Fshr), ("ctlz.", N::Ctlz), ("cttz.", N::Cttz), ("ctpop.", N::Ctpop), ("bswap.", N::Bswap), ("bitreverse.", N::Bitrev), ("abs.", N::Abs), ("ucmp.", N::UCmp), ("scmp.", N::SCmp), ("umul.with", N::UMulO), ("smul.with", N::SMulO), ("uadd.with", N::UAddO), ("sadd.with", N::SAddO), ("usub.with", N::USubO), ("ssub.with", N::SSubO), ("threadlocal.address", N::Id0), ("launder.", N::Id0), ("strip.", N::Id0), ("is.constant", N::IsConst), ("trap", N::Trap), ("ubsantrap", N::Trap), ("fabs.", N::Fabs), ("expect.", N::Id0), ("ptrmask", N::Bad), ("vector.reduce.or", N::VecReduceOr), ("vector.reduce.and", N::VecReduceAnd), ("vector.reduce.add", N::VecReduceAdd)] {
            if s(p) { return n; }
        }
        return N::Bad;
    }
    if name.starts_with("_R") {
        let e = |p: &str| name.ends_with(p);
        if e("7___rustc12___rust_alloc") { return N::RAlloc; }
        if e("7___rustc14___rust_dealloc") { return N::RDealloc; }
        if e("7___rustc14___rust_realloc") { return N::RRealloc; }
        if e("7___rustc19___rust_alloc_zeroed") { return N::RZalloc; }
        if name.contains("7___rustc35___rust_no_alloc_shim_is_unstable") { return N::Nop; }
        if name.contains("4core9panicking9panic_fmt") || name.contains("4core9panicking18panic_nounwind_fmt") || name.contains("7___rustc17rust_begin_unwind") || name.contains("4core9panicking19panic_cannot_unwind") || name.contains("9panicking11begin_panic") || name.contains("9panicking20rust_panic_with_hook") { return N::Panic; }
        if name.contains("5alloc18handle_alloc_error") || name.contains("7___rustc26___rust_alloc_error_handler") { return N::AllocErr; }
        if defined && (e("6String15from_utf8_lossy") || e("3str8converts9from_utf8")) { return N::Utf8; }
        if name.contains("3std7process4exit") { return N::Exit; }
        return if defined { N::None } else { N::Bad };
    }
    match name {
        "malloc" => N::Malloc, "calloc" => N::Calloc, "realloc" => N::Realloc, "free" => N::Free, "posix_memalign" => N::PosixMemalign,
        "memcmp" => N::Memcmp, "bcmp" => N::Bcmp, "strlen" => N::Strlen, "memcpy" | "memmove" => N::CMemcpy, "memset" => N::CMemset,
        "abort" => N::Abort, "exit" | "_exit" => N::Exit,
        "sym_bytes" => N::SymBytes, "sym_choice" => N::SymChoice, "sym_assume" => N::SymAssume, "sym_assert" => N::SymAssert, "sym_reach" => N::SymReach, "sym_keccak" => N::SymKeccak, "sym_conc" => N::SymConc,
        "sym_alloc_reset" => N::SymAllocReset, "sym_alloc_total" => N::SymAllocTotal, "sym_alloc_peak" => N::SymAllocPeak, "sym_alloc_max" => N::SymAllocMax, "sym_alloc_limit" => N::SymAllocLimit, "sym_observe" => N::SymObserve, "sym_file" => N::SymFile, "sym_nomerge" => N::SymNoMerge, "sym_print" => N::SymPrint, "sym_same" => N::SymSame,
        "sym_done" => N::SymDone, "sym_opt" => N::SymOpt,
        "getrandom" => N::Getrandom, "getenv" => N::Getenv, "syscall" => N::Syscall, "__errno_location" => N::Errno, "write" => N::Write, "open64" | "open" => N::Open, "read" => N::Read, "close" => N::Close, "fstat64" => N::Fstat, "lseek64" => N::Lseek,
        "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_create" | "pthread_key_delete" => N::Zero,
        "statx" => N::MinusOne,
        _ => if defined { N::None } else { N::Bad },
    }
}

fn c(k: u128) -> Val { Val::C(k) }
pub fn tox(v: &Val, w: u32) -> X {
    match v { Val::C(k) => cst(*k, w), Val::E(x) => *x, Val::A(v) => { let n = v.len() as u32; let ew = w / n.max(1); let mut r = tox(&v[n as usize - 1], ew); for i in (0..n as usize - 1).rev() { r = expr::mk_concat(r, tox(&v[i], ew)); } r } }
}
pub fn frx(x: X) -> Val { match konst(x) { Some(k) => Val::C(k), None => Val::E(x) } }

/// the keys of hash maps: fixed per seed
fn random(seed: u64, k: u64) -> Vec<X> { (0..k).map(|i| cst((i * 37 + 11 + seed * (i * 13 + 5)) as u128 & 0xff, 8)).collect() }
impl State {
    fn fr(&mut self) -> &mut Frame { self.frames.last_mut().unwrap() }
}

fn bit(d: &[u64; 4], i: usize) -> bool { d[i / 64] >> (i % 64) & 1 == 1 }
fn card(d: &[u64; 4]) -> u32 { d.iter().map(|x| x.count_ones()).sum() }
fn dom_range(d: &[u64; 4]) -> (u8, u8) {
    let mut lo = 255u8; let mut hi = 0u8;
    for i in 0..4 { if d[i] != 0 { let a = (i * 64) as u32 + d[i].trailing_zeros(); let b = (i * 64) as u32 + 63 - d[i].leading_zeros(); if (a as u8) < lo { lo = a as u8; } if (b as u8) > hi { hi = b as u8; } } }
    (lo, hi)
}
fn pick(d: &[u64; 4]) -> u8 { for i in 0..256 { if bit(d, i) { return i as u8; } } 0 }

impl Engine {
    pub fn new(m: &'static Module, rlimit: u32) -> Engine {
        let base = m.globals.iter().map(|g| Rc::new(Obj { data: g.data.borrow().clone(), sym: None, ro: g.constant, heap: false })).collect();
        Engine { m, base, z3: Z3::new(rlimit), cache: HashMap::new(), work: vec![], st: Stats::default(), viols: vec![], unsup: BTreeMap::new(), reach: BTreeMap::new(), samples: vec![], max_samples: 0, verbose: false, max_conc: 5000, max_steps: 400_000_000, deadline: Instant::now() + std::time::Duration::from_secs(86400), late: false, audit: 0, seed: 0, mux_max: 1100, mux_heap: 16, prof: HashMap::new(), pure: HashMap::new() }
    }
    pub fn start(&mut self, fname: &str) -> Result<State, String> {
        let f = *self.m.fidx.get(fname).ok_or(format!("no function {}", fname))?;
        let body = self.m.body(f);
        let mut st = State {
            frames: vec![], mem: Mem::default(), pc: vec![], model: Rc::new(vec![]), vars: Rc::new(vec![]), nvars: 0, known: Rc::new(HashMap::new()), choice: None, inputs: Rc::new(vec![]), obs: Rc::new(vec![]), hashes: Rc::new(vec![]), steps: 0,
            alloc_live: 0, alloc_total: 0, alloc_peak: 0, alloc_base: 0, alloc_max: 0, alloc_limit: 16 << 20, fds: Rc::new(HashMap::new()), files: Rc::new(vec![]), errno: 0, reach: Rc::new(vec![]), nomerge: false, lin: false, ascii: false, hash_seed: 0,
        };
        st.errno = st.mem.alloc(8, false);
        st.frames.push(Frame { f, body, block: 0, ip: 0, regs: vec![c(0); body.nregs as usize], allocas: vec![], ret: None, normal: None });
        Ok(st)
    }

    // ---------------------------------------------------------------- solver
    fn slice(&self, st: &State, q: X) -> Vec<X> {
        let mut inq = vec![false; st.nvars as usize];
        for &v in expr::support(q).iter() { inq[v as usize] = true; }
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &p) in st.pc.iter().enumerate() {
                if used[i] { continue; }
                let s = expr::support(p);
                if s.iter().any(|&v| inq[v as usize]) {
                    used[i] = true;
                    ch = true;
                    for &v in s.iter() { inq[v as usize] = true; }
                    out.push(p);
                }
            }
            if !ch { break; }
        }
        out.push(q);
        out.sort_unstable();
        out.dedup();
        out
    }
    /// Is pc && q satisfiable? Returns the assignment for the sliced variables.
    fn query(&mut self, st: &State, q: X) -> Option<Rc<Vec<(u32, u8)>>> {
        let key = self.slice(st, q);
        if let Some(r) = self.cache.get(&key) { self.st.q_cached += 1; return r.clone(); }
        let t = Instant::now();
        if self.late { self.st.q_unk += 1; *self.unsup.entry("solver: out of time".into()).or_insert(0) += 1; return None; }
        let r = self.z3.check(&key);
        if t.elapsed().as_millis() > 200 && Instant::now() > self.deadline { self.late = true; }
        let dt = t.elapsed().as_secs_f64() * 1000.0;
        if self.verbose && dt > 500.0 { eprintln!("slow query {:.0} ms, {} constraints: {}", dt, key.len(), expr::show_d(q, 7)); }
        self.st.q += 1;
        self.st.q_ms += dt;
        let r = match r {
            Res::Sat(m) => { self.st.q_sat += 1; Some(Rc::new(m)) }
            Res::Unsat => { self.st.q_unsat += 1; None }
            Res::Unknown => { self.st.q_unk += 1; *self.unsup.entry("solver: unknown".into()).or_insert(0) += 1; return None; }
        };
        self.cache.insert(key, r.clone());
        r
    }
    fn with_model(st: &mut State, d: &[(u32, u8)]) { let m = Rc::make_mut(&mut st.model); for &(v, k) in d { m[v as usize] = k; } }
    /// Feasibility of q in st; on success the model change needed.
    fn feasible(&mut self, st: &State, q: X, force_z3: bool) -> Option<Rc<Vec<(u32, u8)>>> {
        if let Some(k) = konst(q) { return if k == 1 { Some(Rc::new(vec![])) } else { None }; }
        if !force_z3 {
            if st.pc.contains(&q) { return Some(Rc::new(vec![])); }
            if st.pc.contains(&expr::mk_not(q)) { return None; }
            if expr::eval(q, &st.model) == 1 { return Some(Rc::new(vec![])); }
            let s = expr::support(q);
            let mut free = s.iter().filter(|&&v| card(&st.vars[v as usize].dom) != 1);
            let (f1, f2) = (free.next(), free.next());
            match (f1, f2) {
                (None, _) => return None,
                (Some(&v), None) => {
                    let t = expr::truth_at(q, v, &st.model, s.len() == 1);
                    let d = st.vars[v as usize].dom;
                    let r = [t[0] & d[0], t[1] & d[1], t[2] & d[2], t[3] & d[3]];
                    if card(&r) == 0 { self.st.dom += 1; self.recheck(st, q); return None; }
                    if !st.vars[v as usize].ent { self.st.dom += 1; return Some(Rc::new(vec![(v, pick(&r))])); }
                }
                _ => if expr::range(q, &|v| dom_range(&st.vars[v as usize].dom)) == (0, 0) { self.st.dom += 1; self.recheck(st, q); return None; },
            }
        }
        // a question about one byte, spelled out
        if force_z3 {
            let s = expr::support(q);
            let free: Vec<u32> = s.iter().cloned().filter(|&v| card(&st.vars[v as usize].dom) != 1).collect();
            if free.len() == 1 {
                let t = expr::truth_at(q, free[0], &st.model, s.len() == 1);
                let d = st.vars[free[0] as usize].dom;
                let mut r = expr::fls();
                for k in 0..256usize { if (t[k / 64] & d[k / 64]) >> (k % 64) & 1 == 1 { r = expr::mk_or(r, expr::mk_eq(expr::var(free[0]), cst(k as u128, 8))); } }
                if konst(r) == Some(0) { self.st.dom += 1; self.recheck(st, q); return None; }
                return self.query(st, r);
            }
        }
        // the same question with linear subterms in canonical form, if that is another one
        let r = expr::rewrite(q, &|v| dom_range(&st.vars[v as usize].dom));
        if r != q && expr::eval(r, &st.model) != expr::eval(q, &st.model) { *self.unsup.entry("rewriting contradicted by a model".into()).or_insert(0) += 1; }
        if r != q {
            if let Some(k) = konst(r) { if k == 0 { self.st.dom += 1; self.recheck(st, q); return None; } }
            else { return self.query(st, r); }
        }
        self.query(st, q)
    }
    /// With --audit N, every Nth infeasibility found by domain reasoning is put to the solver as well.
    fn recheck(&mut self, st: &State, q: X) {
        if self.audit == 0 || self.st.dom % self.audit != 0 { return; }
        self.st.audited += 1;
        if self.query(st, q).is_some() { *self.unsup.entry("audit: domain reasoning contradicted by the solver".into()).or_insert(0) += 1; }
    }
    fn add(&mut self, st: &mut State, q: X) {
        let n = expr::nd(q);
        match n.op {
            expr::Op::Const => return,
            expr::Op::And => { self.add(st, n.a); self.add(st, n.b); return; }
            expr::Op::Not => { let i = expr::nd(n.a); if i.op == expr::Op::Or { let (p, r) = (expr::mk_not(i.a), expr::mk_not(i.b)); self.add(st, p); self.add(st, r); return; } }
            _ => {}
        }
        if st.pc.contains(&q) { return; }
        st.pc.push(q);
        let s = expr::support(q);
        let vars = Rc::make_mut(&mut st.vars);
        let free: Vec<u32> = s.iter().cloned().filter(|&v| card(&vars[v as usize].dom) != 1).collect();
        if free.len() == 1 {
            let t = expr::truth_at(q, free[0], &st.model, s.len() == 1);
            let d = &mut vars[free[0] as usize].dom;
            for i in 0..4 { d[i] &= t[i]; }
        } else if free.len() > 1 {
            // narrow the variables' domains by what the comparison implies
            let mut upd: Vec<(u32, u8, u8)> = vec![];
            expr::narrow(q, true, &|v| dom_range(&vars[v as usize].dom), &mut upd);
            for (v, lo, hi) in upd { let d = &mut vars[v as usize].dom; for k in 0..256usize { if k < lo as usize || k > hi as usize { d[k / 64] &= !(1 << (k % 64)); } } }
            if expr::range(q, &|v| dom_range(&vars[v as usize].dom)) != (1, 1) { for v in free { vars[v as usize].ent = true; } }
        }
        // single remaining value for x == const learned for larger terms
        if n.op == expr::Op::Eq { if let Some(k) = konst(n.b) { Rc::make_mut(&mut st.known).insert(n.a, k); } }
    }
    fn unique(&self, st: &State, x: X) -> Option<u128> {
        if let Some(k) = konst(x) { return Some(k); }
        if let Some(&k) = st.known.get(&x) { return Some(k); }
        let n = expr::nd(x);
        if n.op == expr::Op::Add { if let Some(k2) = konst(n.b) { if let Some(&k) = st.known.get(&n.a) { return Some(k.wrapping_add(k2) & mask(n.w)); } } }
        let s = expr::support(x);
        if s.iter().all(|&v| card(&st.vars[v as usize].dom) == 1) { return Some(expr::eval(x, &st.model)); }
        if n.w == 1 || s.len() <= 8 { let (lo, hi) = expr::range(x, &|v| dom_range(&st.vars[v as usize].dom)); if lo == hi { return Some(lo); } }
        None
    }
    fn conc(&self, st: &State, v: &Val) -> S<u64> {
        match v { Val::C(k) => Ok(*k as u64), Val::E(x) => match self.unique(st, *x) { Some(k) => Ok(k as u64), None => Err(Stop::Conc(*x)) }, _ => Err(Stop::Unsup("aggregate".into())) }
    }

    // ---------------------------------------------------------------- main loop
    pub fn record(&mut self, st: &State, kind: &str, msg: &str, model: &[u8]) {
        self.st.viol += 1;
        if self.viols.iter().filter(|v| v.kind == kind && v.msg == msg).count() >= 4 { return; }
        let trace: Vec<String> = st.frames.iter().rev().take(6).map(|f| self.m.funcs[f.f as usize].name.clone()).collect();
        self.viols.push(Violation { kind: kind.into(), msg: msg.into(), input: self.input_str(st, model), trace: trace.join(" < ") });
    }
    pub fn input_str(&self, st: &State, model: &[u8]) -> String {
        let mut s = String::new();
        for i in st.inputs.iter() {
            match i {
                Inp::Choice(v) => s.push_str(&format!("c{};", v)),
                Inp::Bytes(a, n) => { s.push('b'); for k in *a..*a + *n { s.push_str(&format!("{:02x}", model[k as usize])); } s.push(';'); }
            }
        }
        s
    }
    fn finish(&mut self, st: State, how: &'static str) {
        self.st.done += 1;
        self.st.steps += st.steps;
        for &r in st.reach.iter() { *self.reach.entry(r).or_insert(0) += 1; }
        if self.samples.len() < self.max_samples || (self.max_samples > 0 && (self.st.done * 2654435761) % 97 == 0 && self.samples.len() < self.max_samples * 3) {
            let obs: Vec<String> = st.obs.iter().map(|o| o.iter().map(|&x| format!("{:02x}", expr::eval(x, &st.model))).collect::<String>()).collect();
            let inp = self.input_str(&st, &st.model);
            self.samples.push(format!("{}|{}|{}", how, inp, obs.join(",")));
        }
    }
    /// Run one state until it ends or forks (children are pushed on the work list).
    pub fn run(&mut self, mut st: State) {
        let mut tick = 0u64;
        loop {
            let r = self.step(&mut st);
            tick += 1;
            if self.late && matches!(r, Ok(()) | Err(Stop::Jumped)) { self.st.steps += st.steps; self.work.push(st); return; }
            if tick & 0x3f_ffff == 0 {
                if Instant::now() > self.deadline { self.st.steps += st.steps; self.work.push(st); return; }
                if st.steps > self.max_steps { let model = st.model.clone(); self.record(&st, "hang", "no end within the step limit", &model); self.st.steps += st.steps; return; }
            }
            match r {
                Ok(()) => {}
                Err(Stop::Jumped) => {}
                Err(Stop::Done(how)) => { self.finish(st, how); return; }
                Err(Stop::Infeasible) => { self.st.infeasible += 1; self.st.steps += st.steps; return; }
                Err(Stop::Viol(k, m)) => { let model = st.model.clone(); self.record(&st, &k, &m, &model); self.st.steps += st.steps; return; }
                Err(Stop::Unsup(m)) => { self.unsupported(&st, m); return; }
                Err(Stop::Choice(n)) => {
                    self.st.forks += n.saturating_sub(1);
                    for v in (0..n).rev() { let mut s = st.clone(); s.choice = Some(v); self.work.push(s); }
                    return;
                }
                Err(Stop::Conc(x)) => { self.fork_values(st, x); return; }
            }
        }
    }
    fn unsupported(&mut self, st: &State, m: String) {
        self.st.unsup += 1;
        self.st.steps += st.steps;
        let f = self.m.funcs[st.frames.last().unwrap().f as usize].name.clone();
        if self.verbose { eprintln!("unsupported {} in {}", m, st.frames.iter().rev().take(8).map(|f| self.m.funcs[f.f as usize].name.clone()).collect::<Vec<_>>().join(" < ")); }
        *self.unsup.entry(format!("{} in {}", m, f)).or_insert(0) += 1;
    }
    fn fork_values(&mut self, mut st: State, x: X) {
        let w = expr::width(x);
        let mut n = 0;
        if self.verbose && self.prof.len() < 100000 { let fr = st.frames.last().unwrap(); *self.prof.entry((fr.f, fr.block | 0x8000_0000)).or_insert(0) += 1; }
        let s = expr::support(x);
        let free: Vec<u32> = s.iter().cloned().filter(|&v| card(&st.vars[v as usize].dom) != 1).collect();
        if free.len() == 1 && !st.vars[free[0] as usize].ent {
            // one free byte: its domain gives the values
            let v = free[0];
            let mut m = st.model.as_ref().clone();
            let mut groups: BTreeMap<u128, [u64; 4]> = BTreeMap::new();
            let d = st.vars[v as usize].dom;
            for k in 0..256usize { if d[k / 64] >> (k % 64) & 1 == 1 { m[v as usize] = k as u8; groups.entry(expr::eval(x, &m)).or_insert([0; 4])[k / 64] |= 1 << (k % 64); } }
            self.st.dom += groups.len() as u64;
            self.st.forks += groups.len() as u64 - 1;
            for (val, dom) in groups {
                let mut c = st.clone();
                Self::with_model(&mut c, &[(v, pick(&dom))]);
                self.add(&mut c, expr::mk_eq(x, cst(val, w)));
                Rc::make_mut(&mut c.known).insert(x, val);
                self.work.push(c);
            }
            return;
        }
        let base = st.clone();
        loop {
            let v = expr::eval(x, &st.model);
            let eq = expr::mk_eq(x, cst(v, w));
            let mut s = base.clone();
            s.model = st.model.clone();
            self.add(&mut s, eq);
            Rc::make_mut(&mut s.known).insert(x, v);
            self.work.push(s);
            n += 1;
            let ne = expr::mk_not(eq);
            match self.feasible(&st, ne, false) {
                None => return,
                Some(d) => { Self::with_model(&mut st, &d); self.add(&mut st, ne); self.st.forks += 1; }
            }
            if n % 16 == 0 && Instant::now() > self.deadline { self.work.push(st); return; }
            if n >= self.max_conc { self.unsupported(&st, "too many values to enumerate".into()); return; }
        }
    }

    fn val(&self, fr: &Frame, o: &Opd) -> Val { match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone() } }
    fn bits(&self, t: TyId) -> u32 { self.m.tys.borrow().v[t as usize].bits }

    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.fr();
        let from = fr.block;
        let b = &fr.body.blocks[to as usize];
        if b.phis.len() == 1 {
            let p = &b.phis[0];
            let o = &p.inc.iter().find(|x| x.0 == from).expect("phi").1;
            let v = match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone() };
            fr.regs[p.d as usize] = v;
        } else if !b.phis.is_empty() {
            let vs: Vec<Val> = b.phis.iter().map(|p| match &p.inc.iter().find(|x| x.0 == from).expect("phi").1 { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone() }).collect();
            for (p, v) in b.phis.iter().zip(vs) { fr.regs[p.d as usize] = v; }
        }
        fr.block = to;
        fr.ip = 0;
    }

    fn step(&mut self, st: &mut State) -> S<()> {
        st.steps += 1;
        let fr = st.frames.last().unwrap();
        let body: &'static Body = fr.body;
        let ins = match body.blocks[fr.block as usize].insts.get(fr.ip) { Some(i) => i, None => panic!("fell off block {} ip {} of {} ({} blocks)", fr.block, fr.ip, self.m.funcs[fr.f as usize].name, body.blocks.len()) };
        if let Some((d, v)) = self.pure_inst(st, ins, None)? {
            let fr = st.fr();
            fr.regs[d as usize] = v;
            fr.ip += 1;
            return Ok(());
        }
        match ins {
            I::Store { ty, v, p } => {
                let fr = st.frames.last().unwrap();
                let v = self.val(fr, v);
                let p = self.val(fr, p);
                let a = self.conc(st, &p)?;
                self.store(st, a, *ty, &v)?;
                st.fr().ip += 1;
            }
            I::Alloca { size, n, d } => {
                let fr = st.frames.last().unwrap();
                let n = self.val(fr, n);
                let n = self.conc(st, &n)?;
                let a = st.mem.alloc((*size * n) as usize, false);
                let fr = st.fr();
                fr.allocas.push(a);
                fr.regs[*d as usize] = c(a as u128);
                fr.ip += 1;
            }
            I::Br(t) => self.jump(st, *t),
            I::CondBr { c: co, t, e } => {
                let fr = st.frames.last().unwrap();
                match self.val(fr, co) {
                    Val::C(k) => self.jump(st, if k & 1 == 1 { *t } else { *e }),
                    Val::E(x) => return self.branch(st, vec![(x, *t), (expr::mk_not(x), *e)]),
                    _ => return Err(Stop::Unsup("br".into())),
                }
            }
            I::Switch { ty, v, def, cases } => {
                let fr = st.frames.last().unwrap();
                match self.val(fr, v) {
                    Val::C(k) => { let t = cases.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*def); self.jump(st, t) }
                    Val::E(x) => {
                        let w = self.bits(*ty);
                        let mut out: Vec<(X, u32)> = vec![];
                        let mut rest = expr::tru();
                        for (k, b) in cases {
                            let e = expr::mk_eq(x, cst(*k, w));
                            rest = expr::mk_and(rest, expr::mk_not(e));
                            match out.iter_mut().find(|o| o.1 == *b) { Some(o) => o.0 = expr::mk_or(o.0, e), None => out.push((e, *b)) }
                        }
                        match out.iter_mut().find(|o| o.1 == *def) { Some(o) => o.0 = expr::mk_or(o.0, rest), None => out.push((rest, *def)) }
                        return self.branch(st, out);
                    }
                    _ => return Err(Stop::Unsup("switch".into())),
                }
            }
            I::Ret(v) => {
                let fr = st.frames.last().unwrap();
                let v = v.as_ref().map(|o| self.val(fr, o));
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas { st.mem.release(a); }
                if st.frames.is_empty() {
                    st.frames.push(Frame { f: fr.f, body: fr.body, block: fr.block, ip: fr.ip, regs: vec![], allocas: vec![], ret: None, normal: None });
                    return Err(Stop::Done("ret"));
                }
                if let (Some(d), Some(v)) = (fr.ret, v) { st.fr().regs[d as usize] = v; }
                if let Some(nb) = fr.normal { self.jump(st, nb); } else { st.fr().ip += 1; }
            }
            I::Unreachable => return Err(Stop::Viol("ub".into(), "unreachable executed".into())),
            I::Call { f, args, ret, d, normal } => return self.call(st, f, args, *ret, *d, *normal),
            I::Rmw { op, ty, p, v, d } => {
                let fr = st.frames.last().unwrap();
                let (p, v) = (self.val(fr, p), self.val(fr, v));
                let a = self.conc(st, &p)?;
                let old = self.load(st, &c(a as u128), *ty)?;
                let w = self.bits(*ty);
                let (x, y) = (tox(&old, w), tox(&v, w));
                let nv = match op.as_str() { "add" => expr::mk_add(x, y), "sub" => expr::mk_sub(x, y), "xchg" => y, "and" => expr::mk_and(x, y), "or" => expr::mk_or(x, y), "xor" => expr::mk_xor(x, y), "umax" => expr::mk_ite(expr::mk_ult(x, y), y, x), "umin" => expr::mk_ite(expr::mk_ult(x, y), x, y), o => return Err(Stop::Unsup(format!("atomicrmw {}", o))) };
                self.store(st, a, *ty, &frx(nv))?;
                let fr = st.fr();
                fr.regs[*d as usize] = old;
                fr.ip += 1;
            }
            I::CmpXchg { ty, p, c: cv, n, d } => {
                let fr = st.frames.last().unwrap();
                let (p, cv, n) = (self.val(fr, p), self.val(fr, cv), self.val(fr, n));
                let a = self.conc(st, &p)?;
                let old = self.load(st, &c(a as u128), *ty)?;
                let w = self.bits(*ty);
                let eq = expr::mk_eq(tox(&old, w), tox(&cv, w));
                let k = match konst(eq) { Some(k) => k, None => self.conc(st, &Val::E(eq))? as u128 };
                if k == 1 { self.store(st, a, *ty, &n)?; }
                let fr = st.fr();
                fr.regs[*d as usize] = Val::A(Rc::new(vec![old, c(k)]));
                fr.ip += 1;
            }
            I::Nop => st.fr().ip += 1,
            I::Bad(s) => return Err(Stop::Unsup(format!("instruction: {}", s))),
            _ => return Err(Stop::Unsup("instruction".into())),
        }
        Ok(())
    }

    // ------------------------------------------------------------ branching and merging
    fn block_pure(&mut self, f: u32, body: &'static Body, b: u32) -> bool {
        if let Some(&p) = self.pure.get(&(f, b)) { return p; }
        let bl = &body.blocks[b as usize];
        let mut ok = bl.insts.len() <= 60;
        if ok {
            for i in &bl.insts {
                ok = match i {
                    I::Bin { op, b, .. } => match op { BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => matches!(b, Opd::K(Val::C(k)) if *k != 0), BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem => false, _ => true },
                    I::ICmp { .. } | I::Select { .. } | I::Gep { .. } | I::ExtractV { .. } | I::InsertV { .. } | I::Freeze { .. } | I::Load { .. } | I::Nop | I::ExtractE { .. } | I::InsertE { .. } | I::Shuffle { .. } => true,
                    I::Cast { op, .. } => matches!(op, CastOp::Trunc | CastOp::ZExt | CastOp::SExt | CastOp::Bit | CastOp::PtrInt),
                    I::Br(_) | I::CondBr { .. } | I::Switch { .. } => true,
                    I::Call { f: Callee::F(fi), normal: None, .. } => { let n = self.nat(*fi); matches!(n, N::Nop | N::UMin | N::UMax | N::SMin | N::SMax | N::USubSat | N::UAddSat | N::Fshl | N::Fshr | N::Ctlz | N::Cttz | N::Ctpop | N::Bswap | N::Abs | N::UCmp | N::SCmp | N::UMulO | N::UAddO | N::SAddO | N::USubO | N::SSubO | N::Id0) }
                    _ => false,
                };
                if !ok { break; }
            }
        }
        self.pure.insert((f, b), ok);
        ok
    }

    fn branch(&mut self, st: &mut State, outs: Vec<(X, u32)>) -> S<()> {
        let fr = st.frames.last().unwrap();
        let (f, body, start) = (fr.f, fr.body, fr.block);
        // cheap decision first
        {
            let mut one = None;
            for (g, b) in &outs {
                if st.pc.contains(g) || self.unique(st, *g) == Some(1) { one = Some(*b); break; }
            }
            if let Some(b) = one { self.jump(st, b); return Ok(()); }
        }
        if self.verbose { *self.prof.entry((f, start)).or_insert(0) += 1; }
        let mut pend: PendMap = BTreeMap::new();
        let mut seq = 0u32;
        let start_rpo = body.blocks[start as usize].rpo;
        let nomerge = st.nomerge;
        {
            let fr = st.frames.last().unwrap();
            let empty = HashMap::new();
            for (g, b) in &outs { add_edge(&mut pend, fr, *g, start, start_rpo, start_rpo, *b, &empty, &mut seq, nomerge, &mut self.st.merges); }
        }
        let mut budget = if nomerge { 0 } else { 48 };
        let mut stops: Vec<(u32, Pend)> = vec![];
        while let Some((&key, _)) = pend.iter().next() {
            let p = pend.remove(&key).unwrap();
            let b = key.1;
            if p.stop || budget == 0 || !self.block_pure(f, body, b) { stops.push((b, p)); continue; }
            budget -= 1;
            // execute the block on (regs + delta)
            let mut delta = p.delta.clone();
            let mut fail = false;
            let bl = &body.blocks[b as usize];
            for ins in &bl.insts {
                match ins {
                    I::Br(_) | I::CondBr { .. } | I::Switch { .. } => break,
                    I::Call { f: Callee::F(fi), args, ret, d, .. } => {
                        let n = self.nat(*fi);
                        if n == N::Nop { continue; }
                        let fr = st.frames.last().unwrap();
                        let av: Vec<(TyId, Val)> = args.iter().map(|(t, o)| (*t, getv(fr, &delta, o))).collect();
                        match self.intrinsic(n, &av, *ret) { Ok(Some(v)) => { if let Some(d) = d { delta.insert(*d, v); } } _ => { fail = true; break; } }
                    }
                    I::Load { .. } => match self.pure_inst(st, ins, Some(&delta)) { Ok(Some((d, v))) => { delta.insert(d, v); } _ => { fail = true; break; } },
                    _ => match self.pure_inst(st, ins, Some(&delta)) { Ok(Some((d, v))) => { delta.insert(d, v); } Ok(None) => {} Err(_) => { fail = true; break; } },
                }
            }
            if fail { stops.push((b, p)); continue; }
            let rpo = bl.rpo;
            let mut outs2: Vec<(X, u32)> = vec![];
            {
                let fr = st.frames.last().unwrap();
                match bl.insts.last() {
                    Some(I::Br(t)) => outs2.push((p.guard, *t)),
                    Some(I::CondBr { c, t, e }) => match getv(fr, &delta, c) {
                        Val::C(k) => outs2.push((p.guard, if k & 1 == 1 { *t } else { *e })),
                        Val::E(x) => { outs2.push((expr::mk_and(p.guard, x), *t)); outs2.push((expr::mk_and(p.guard, expr::mk_not(x)), *e)); }
                        _ => { stops.push((b, p)); continue; }
                    },
                    Some(I::Switch { ty, v, def, cases }) => match getv(fr, &delta, v) {
                        Val::C(k) => outs2.push((p.guard, cases.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*def))),
                        Val::E(x) => {
                            let w = self.bits(*ty);
                            let mut rest = p.guard;
                            let mut by: Vec<(X, u32)> = vec![];
                            for (k, t) in cases { let e = expr::mk_eq(x, cst(*k, w)); rest = expr::mk_and(rest, expr::mk_not(e)); let g = expr::mk_and(p.guard, e); match by.iter_mut().find(|o| o.1 == *t) { Some(o) => o.0 = expr::mk_or(o.0, g), None => by.push((g, *t)) } }
                            match by.iter_mut().find(|o| o.1 == *def) { Some(o) => o.0 = expr::mk_or(o.0, rest), None => by.push((rest, *def)) }
                            outs2.extend(by);
                        }
                        _ => { stops.push((b, p)); continue; }
                    },
                    _ => { stops.push((b, p)); continue; }
                }
            }
            let fr = st.frames.last().unwrap();
            for (g, t) in outs2 { add_edge(&mut pend, fr, g, b, rpo, start_rpo, t, &delta, &mut seq, nomerge, &mut self.st.merges); }
        }
        // feasible exits
        let mut live: Vec<(u32, Pend, Rc<Vec<(u32, u8)>>)> = vec![];
        for (b, p) in stops { if let Some(m) = self.feasible(st, p.guard, false) { live.push((b, p, m)); } }
        if live.is_empty() { return Err(Stop::Infeasible); }
        self.st.forks += live.len() as u64 - 1;
        let n = live.len();
        let mut first = None;
        for (i, (b, p, m)) in live.into_iter().enumerate() {
            let apply = |eng: &mut Engine, s: &mut State| {
                if !m.is_empty() { Self::with_model(s, &m); }
                if n > 1 { eng.add(s, p.guard); }
                let fr = s.fr();
                for (r, v) in &p.delta { fr.regs[*r as usize] = v.clone(); }
                // the condition just decided often sits in loop counters as i + (i < n)
                let (mut g, mut k) = (p.guard, true);
                while expr::nd(g).op == expr::Op::Not { g = expr::nd(g).a; k = !k; }
                if expr::nd(g).op != expr::Op::And && expr::nd(g).op != expr::Op::Const {
                    for r in fr.regs.iter_mut() { if let Val::E(x) = r { let y = expr::subst(*x, g, k, 4); if y != *x { *r = frx(y); } } }
                }
                fr.block = b;
                fr.ip = 0;
            };
            if i + 1 == n {
                match first { None => { apply(self, st); } Some(_) => { apply(self, st); } }
                return Err(Stop::Jumped);
            } else {
                let mut s = st.clone();
                apply(self, &mut s);
                self.work.push(s);
                first = Some(());
            }
        }
        Err(Stop::Jumped)
    }

    // ------------------------------------------------------------ pure instructions
    fn pure_inst(&mut self, st: &State, ins: &I, delta: Option<&HashMap<u32, Val>>) -> S<Option<(u32, Val)>> {
        let r = self.pure_inst_raw(st, ins, delta)?;
        if st.lin { if let Some((d, Val::E(x))) = r {
            let y = expr::rewrite(x, &|v| dom_range(&st.vars[v as usize].dom));
            if y != x && expr::eval(y, &st.model) != expr::eval(x, &st.model) { *self.unsup.entry("rewriting contradicted by a model".into()).or_insert(0) += 1; }
            return Ok(Some((d, frx(y))));
        } }
        Ok(r)
    }
    fn pure_inst_raw(&mut self, st: &State, ins: &I, delta: Option<&HashMap<u32, Val>>) -> S<Option<(u32, Val)>> {
        let fr = st.frames.last().unwrap();
        let gv = |o: &Opd| -> Val {
            match o { Opd::K(v) => v.clone(), Opd::R(r) => { if let Some(d) = delta { if let Some(v) = d.get(r) { return v.clone(); } } fr.regs[*r as usize].clone() } }
        };
        Ok(Some(match ins {
            I::Bin { op, ty, a, b, d } => (*d, self.bin(*op, *ty, gv(a), gv(b))?),
            I::ICmp { p, ty, a, b, d } => (*d, self.icmp(*p, *ty, gv(a), gv(b))?),
            I::Cast { op, from, to, a, d } => (*d, self.cast(*op, *from, *to, gv(a))?),
            I::Select { ty, c: cc, a, b, d, .. } => {
                let v = match gv(cc) {
                    Val::C(k) => if k & 1 == 1 { gv(a) } else { gv(b) },
                    Val::E(x) => match self.unique(st, x) { Some(1) => gv(a), Some(_) => gv(b), None => self.ite(x, *ty, &gv(a), &gv(b)) },
                    Val::A(cs) => match (gv(a), gv(b)) {
                        (Val::A(x), Val::A(y)) => { let et = match &self.m.tys.borrow().v[*ty as usize].ty { Ty::Vector(_, e) => *e, _ => return Err(Stop::Unsup("select".into())) }; Val::A(Rc::new(cs.iter().enumerate().map(|(i, c)| match c { Val::C(k) => if k & 1 == 1 { x[i].clone() } else { y[i].clone() }, Val::E(cx) => self.ite(*cx, et, &x[i], &y[i]), _ => unreachable!() }).collect())) }
                        _ => return Err(Stop::Unsup("select".into())),
                    },
                };
                (*d, v)
            }
            I::Load { ty, p, d } => (*d, self.load(st, &gv(p), *ty)?),
            I::Gep { base, off, terms, d } => {
                let b = gv(base);
                let mut k = *off as u64;
                let mut sy: Option<X> = None;
                match b { Val::C(x) => k = k.wrapping_add(x as u64), Val::E(x) => sy = Some(x), _ => return Err(Stop::Unsup("vector gep".into())) }
                for (o, s, w) in terms {
                    match gv(o) {
                        Val::C(x) => k = k.wrapping_add((sx(x, *w) as i64 as u64).wrapping_mul(*s)),
                        Val::E(x) => {
                            let x = if *w < 64 { expr::mk_sext(x, 64) } else { x };
                            let t = expr::mk_mul(x, cst(*s as u128, 64));
                            sy = Some(match sy { Some(y) => expr::mk_add(y, t), None => t });
                        }
                        _ => return Err(Stop::Unsup("vector gep".into())),
                    }
                }
                (*d, match sy { None => c(k as u128), Some(x) => frx(expr::mk_add(x, cst(k as u128, 64))) })
            }
            I::ExtractV { a, idx, d } => {
                let mut v = gv(a);
                for i in idx { v = match v { Val::A(x) => x[*i as usize].clone(), _ => return Err(Stop::Unsup("extractvalue".into())) }; }
                (*d, v)
            }
            I::InsertV { a, v, idx, d, .. } => {
                fn ins(a: &Val, v: Val, idx: &[u32]) -> Option<Val> {
                    if idx.is_empty() { return Some(v); }
                    match a { Val::A(x) => { let mut y = x.as_ref().clone(); y[idx[0] as usize] = ins(&y[idx[0] as usize], v, &idx[1..])?; Some(Val::A(Rc::new(y))) } _ => None }
                }
                (*d, ins(&gv(a), gv(v), idx).ok_or(Stop::Unsup("insertvalue".into()))?)
            }
            I::ExtractE { a, i, d } => match (gv(a), gv(i)) { (Val::A(x), Val::C(k)) => (*d, x.get(k as usize).cloned().unwrap_or(c(0))), _ => return Err(Stop::Unsup("extractelement".into())) },
            I::InsertE { a, v, i, d, .. } => match (gv(a), gv(i)) { (Val::A(x), Val::C(k)) => { let mut y = x.as_ref().clone(); y[k as usize] = gv(v); (*d, Val::A(Rc::new(y))) } _ => return Err(Stop::Unsup("insertelement".into())) },
            I::Shuffle { a, b, m, n, d } => match (gv(a), gv(b)) { (Val::A(x), Val::A(y)) => (*d, Val::A(Rc::new(m.iter().map(|&i| { let i = i as usize; if i < *n { x[i].clone() } else { y[i - *n].clone() } }).collect()))), _ => return Err(Stop::Unsup("shuffle".into())) },
            I::Freeze { a, d } => (*d, gv(a)),
            I::FNeg { ty, a, d } => match gv(a) { Val::C(k) => { let w = self.bits(*ty); (*d, c(k ^ (1u128 << (w - 1)))) } _ => return Err(Stop::Unsup("symbolic float".into())) },
            I::FCmp { p, ty, a, b, d } => {
                let w = self.bits(*ty);
                match (gv(a), gv(b)) {
                    (Val::C(x), Val::C(y)) => {
                        let (x, y) = if w == 64 { (f64::from_bits(x as u64), f64::from_bits(y as u64)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                        let un = x.is_nan() || y.is_nan();
                        let r = match p.as_str() { "oeq" => !un && x == y, "ueq" => un || x == y, "one" => !un && x != y, "une" => un || x != y, "olt" => !un && x < y, "ult" => un || x < y, "ole" => !un && x <= y, "ule" => un || x <= y, "ogt" => !un && x > y, "ugt" => un || x > y, "oge" => !un && x >= y, "uge" => un || x >= y, "ord" => !un, "uno" => un, _ => return Err(Stop::Unsup("fcmp".into())) };
                        (*d, c(r as u128))
                    }
                    _ => return Err(Stop::Unsup("symbolic float".into())),
                }
            }
            _ => return Ok(None),
        }))
    }
    fn ite(&self, x: X, ty: TyId, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::A(p), Val::A(q)) => {
                let t = self.m.tys.borrow();
                let el: Vec<TyId> = match &t.v[ty as usize].ty { Ty::Struct(f, _) => f.clone(), Ty::Array(n, e) | Ty::Vector(n, e) => vec![*e; *n as usize], _ => unreachable!() };
                drop(t);
                Val::A(Rc::new((0..p.len()).map(|i| self.ite(x, el[i], &p[i], &q[i])).collect()))
            }
            _ => { let w = self.bits(ty); frx(expr::mk_ite(x, tox(a, w), tox(b, w))) }
        }
    }
    fn elem(&self, ty: TyId) -> Option<TyId> { match &self.m.tys.borrow().v[ty as usize].ty { Ty::Vector(_, e) => Some(*e), _ => None } }
    fn bin(&mut self, op: BinOp, ty: TyId, a: Val, b: Val) -> S<Val> {
        use BinOp::*;
        if let (Val::A(x), Val::A(y)) = (&a, &b) {
            let e = self.elem(ty).unwrap();
            let mut o = Vec::with_capacity(x.len());
            for i in 0..x.len() { o.push(self.bin(op, e, x[i].clone(), y[i].clone())?); }
            return Ok(Val::A(Rc::new(o)));
        }
        let w = self.bits(ty);
        if matches!(op, FAdd | FSub | FMul | FDiv | FRem) {
            return match (a, b) {
                (Val::C(x), Val::C(y)) => {
                    let g = |x: f64, y: f64| match op { FAdd => x + y, FSub => x - y, FMul => x * y, FDiv => x / y, _ => x % y };
                    Ok(if w == 64 { c(g(f64::from_bits(x as u64), f64::from_bits(y as u64)).to_bits() as u128) } else { c((g(f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) as f32).to_bits() as u128) })
                }
                _ => Err(Stop::Unsup("symbolic float".into())),
            };
        }
        let div = matches!(op, UDiv | URem | SDiv | SRem);
        if let (Val::C(x), Val::C(y)) = (&a, &b) {
            if w <= 128 {
                let (x, y) = (*x, *y);
                let m = mask(w);
                return Ok(c(match op {
                    Add => x.wrapping_add(y) & m, Sub => x.wrapping_sub(y) & m, Mul => x.wrapping_mul(y) & m, And => x & y, Or => x | y, Xor => x ^ y,
                    Shl => if y >= w as u128 { 0 } else { (x << y) & m }, LShr => if y >= w as u128 { 0 } else { x >> y }, AShr => { let s = (y as u32).min(w - 1); (sx(x, w) >> s) as u128 & m }
                    _ => { if y == 0 { return Err(Stop::Viol("ub".into(), "division by zero".into())); } match op { UDiv => x / y, URem => x % y, SDiv => sx(x, w).wrapping_div(sx(y, w)) as u128 & m, _ => sx(x, w).wrapping_rem(sx(y, w)) as u128 & m } }
                }));
            }
        }
        let (x, y) = (tox(&a, w), tox(&b, w));
        if w > 128 && !matches!(op, And | Or | Xor | Shl | LShr) { return Err(Stop::Unsup(format!("{:?} on {} bits", op, w))); }
        if div && konst(y).is_none() { /* Rust checks the divisor before dividing */ }
        Ok(frx(match op {
            Add => expr::mk_add(x, y), Sub => expr::mk_sub(x, y), Mul => expr::mk_mul(x, y), UDiv => expr::mk_udiv(x, y), URem => expr::mk_urem(x, y), SDiv => expr::mk_sdiv(x, y), SRem => expr::mk_srem(x, y),
            And => expr::mk_and(x, y), Or => expr::mk_or(x, y), Xor => expr::mk_xor(x, y), Shl => expr::mk_shl(x, y), LShr => expr::mk_lshr(x, y), AShr => expr::mk_ashr(x, y), _ => unreachable!(),
        }))
    }
    fn icmp(&mut self, p: Pred, ty: TyId, a: Val, b: Val) -> S<Val> {
        use Pred::*;
        if let (Val::A(x), Val::A(y)) = (&a, &b) {
            let e = self.elem(ty).unwrap();
            let mut o = Vec::with_capacity(x.len());
            for i in 0..x.len() { o.push(self.icmp(p, e, x[i].clone(), y[i].clone())?); }
            return Ok(Val::A(Rc::new(o)));
        }
        let w = self.bits(ty);
        if let (Val::C(x), Val::C(y)) = (&a, &b) {
            let (x, y) = (*x, *y);
            let (i, j) = (sx(x, w), sx(y, w));
            return Ok(c(match p { Eq => x == y, Ne => x != y, Ugt => x > y, Uge => x >= y, Ult => x < y, Ule => x <= y, Sgt => i > j, Sge => i >= j, Slt => i < j, Sle => i <= j } as u128));
        }
        let (x, y) = (tox(&a, w), tox(&b, w));
        Ok(frx(match p {
            Eq => expr::mk_eq(x, y), Ne => expr::mk_ne(x, y), Ugt => expr::mk_ult(y, x), Uge => expr::mk_ule(y, x), Ult => expr::mk_ult(x, y), Ule => expr::mk_ule(x, y),
            Sgt => expr::mk_slt(y, x), Sge => expr::mk_not(expr::mk_slt(x, y)), Slt => expr::mk_slt(x, y), Sle => expr::mk_not(expr::mk_slt(y, x)),
        }))
    }
    fn cast(&mut self, op: CastOp, from: TyId, to: TyId, a: Val) -> S<Val> {
        let (fw, tw) = (self.bits(from), self.bits(to));
        if op == CastOp::Bit {
            // through the bit pattern
            let fe = self.elem(from);
            let te = self.elem(to);
            if fe.is_none() && te.is_none() { return Ok(a); }
            if let (Some(x), Some(y)) = (fe, te) { if self.bits(x) == self.bits(y) { return Ok(a); } }
            let x = tox(&a, fw);
            return Ok(match te {
                None => frx(x),
                Some(e) => { let ew = self.bits(e); Val::A(Rc::new((0..tw / ew).map(|i| frx(expr::mk_extract(x, i * ew, ew))).collect())) }
            });
        }
        if let Val::A(v) = &a {
            let (fe, te) = (self.elem(from).unwrap(), self.elem(to).unwrap());
            let mut o = vec![];
            for x in v.iter() { o.push(self.cast(op, fe, te, x.clone())?); }
            return Ok(Val::A(Rc::new(o)));
        }
        match op {
            CastOp::PtrInt => Ok(match a { Val::C(k) => c(k & mask(tw)), Val::E(x) => frx(if fw > tw { expr::mk_extract(x, 0, tw) } else { expr::mk_zext(x, tw) }), v => v }),
            CastOp::Trunc => Ok(match a { Val::C(k) => c(k & mask(tw)), Val::E(x) => frx(expr::mk_extract(x, 0, tw)), v => v }),
            CastOp::ZExt => Ok(match a { Val::C(k) => c(k), Val::E(x) => frx(expr::mk_zext(x, tw)), v => v }),
            CastOp::SExt => Ok(match a { Val::C(k) if tw <= 128 => c(sx(k, fw) as u128 & mask(tw)), Val::C(k) => Val::E(expr::mk_sext(cst(k, fw), tw)), Val::E(x) => frx(expr::mk_sext(x, tw)), v => v }),
            _ => match a {
                Val::C(k) => Ok(c(match op {
                    CastOp::UiToFp => if tw == 64 { (k as f64).to_bits() as u128 } else { (k as f32).to_bits() as u128 },
                    CastOp::SiToFp => if tw == 64 { (sx(k, fw) as f64).to_bits() as u128 } else { (sx(k, fw) as f32).to_bits() as u128 },
                    CastOp::FpToUi => (f64::from_bits(k as u64) as u128) & mask(tw),
                    CastOp::FpToSi => (f64::from_bits(k as u64) as i128 as u128) & mask(tw),
                    CastOp::FpExt => (f32::from_bits(k as u32) as f64).to_bits() as u128,
                    _ => (f64::from_bits(k as u64) as f32).to_bits() as u128,
                })),
                _ => Err(Stop::Unsup("symbolic float".into())),
            },
        }
    }

    // ------------------------------------------------------------ memory
    fn oob(&self, st: &State, a: u64, n: u64, what: &str) -> Stop {
        let d = match st.mem.obj(&self.base, a) { Some(o) => format!("object of {} bytes", o.data.len()), None => "no object".into() };
        if d == "no object" && std::env::var("SYMIR_DBG").is_ok() { eprintln!("{} at {:#x}", what, a); }
        Stop::Viol("oob".into(), format!("{} of {} bytes at offset {} ({})", what, n, a as u32, d))
    }
    pub fn read(&mut self, st: &State, a: u64, n: usize) -> S<Vec<X>> {
        if n == 0 { return Ok(vec![]); }
        let o = st.mem.obj(&self.base, a).ok_or_else(|| self.oob(st, a, n as u64, "read"))?;
        let off = a as u32 as usize;
        if off + n > o.data.len() { return Err(self.oob(st, a, n as u64, "read")); }
        Ok((off..off + n).map(|i| o.get(i)).collect())
    }
    fn read_conc(&mut self, st: &State, a: u64, n: usize) -> S<Vec<u8>> {
        let v = self.read(st, a, n)?;
        let mut o = vec![];
        for x in v { o.push(self.conc(st, &Val::E(x))? as u8); }
        Ok(o)
    }
    fn write(&mut self, st: &mut State, a: u64, v: &[X]) -> S<()> {
        if v.is_empty() { return Ok(()); }
        let off = a as u32 as usize;
        let bad = match st.mem.obj(&self.base, a) { Some(o) => off + v.len() > o.data.len() || o.ro, None => true };
        if bad { return Err(self.oob(st, a, v.len() as u64, "write")); }
        let o = st.mem.obj_mut(&self.base, a).unwrap();
        for (i, &x) in v.iter().enumerate() { o.put(off + i, x); }
        Ok(())
    }
    /// bytes at a symbolic address, as terms
    fn read_sym(&mut self, st: &State, x: X, n: usize) -> S<Vec<X>> {
        if let Some(k) = self.unique(st, x) { return self.read(st, k as u64, n); }
        let a0 = expr::eval(x, &st.model) as u64;
        let sz = match st.mem.obj(&self.base, a0) { Some(o) => o.data.len(), None => return Err(Stop::Conc(x)) };
        if sz > self.mux_max || sz < n || (a0 >> 32 >= HEAP0 as u64 && sz > self.mux_heap) { return Err(Stop::Conc(x)); }
        let b0 = a0 >> 32 << 32;
        let off = expr::mk_sub(x, cst(b0 as u128, 64));
        let inb = expr::mk_ult(off, cst((sz - n + 1) as u128, 64));
        if self.feasible(st, expr::mk_not(inb), false).is_some() { return Err(Stop::Conc(x)); }
        let o = st.mem.obj(&self.base, a0).unwrap().clone();
        // candidate offsets: respect known low bits
        let (lo, hi) = expr::bounds(off);
        let hi = hi.min((sz - n) as u128) as usize;
        let lo = if lo as usize > hi { 0 } else { lo as usize };
        let mut stride = 1usize;
        let nn = expr::nd(off);
        let mut low = off;
        if nn.op == expr::Op::Concat { while expr::nd(low).op == expr::Op::Concat { low = expr::nd(low).b; } if let Some(0) = konst(low) { stride = 1usize << expr::width(low).min(16); } }
        let start = if stride > 1 { (lo + stride - 1) / stride * stride } else { lo };
        let cands: Vec<usize> = (start..=hi).step_by(stride).collect();
        if cands.is_empty() { return Err(Stop::Conc(x)); }
        let mut out = vec![];
        for j in 0..n {
            let leaves: Vec<X> = cands.iter().map(|&k| o.get(k + j)).collect();
            out.push(tree(off, &cands, &leaves));
        }
        Ok(out)
    }
    fn load(&mut self, st: &State, p: &Val, ty: TyId) -> S<Val> {
        let (size, bits, t) = { let t = self.m.tys.borrow(); let i = &t.v[ty as usize]; (i.size, i.bits, match &i.ty { Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => Some(i.clone()), _ => None }) };
        if let Some(info) = t {
            let a = self.conc(st, p)?;
            return match &info.ty {
                Ty::Struct(f, _) => { let mut o = vec![]; for (i, &x) in f.iter().enumerate() { o.push(self.load(st, &c((a + info.offs[i]) as u128), x)?); } Ok(Val::A(Rc::new(o))) }
                Ty::Array(n, e) => { let s = self.m.tys.borrow().v[*e as usize].size; let mut o = vec![]; for i in 0..*n { o.push(self.load(st, &c((a + i * s) as u128), *e)?); } Ok(Val::A(Rc::new(o))) }
                Ty::Vector(n, e) => {
                    let ew = self.bits(*e);
                    if ew % 8 == 0 { let s = (ew / 8) as u64; let mut o = vec![]; for i in 0..*n { o.push(self.load(st, &c((a + i * s) as u128), *e)?); } Ok(Val::A(Rc::new(o))) }
                    else { let b = self.read(st, a, ((bits + 7) / 8) as usize)?; let x = join(&b); Ok(Val::A(Rc::new((0..*n as u32).map(|i| frx(expr::mk_extract(x, i * ew, ew))).collect()))) }
                }
                _ => unreachable!(),
            };
        }
        let n = ((bits + 7) / 8) as usize;
        let _ = size;
        let a = match p {
            Val::C(k) => *k as u64,
            Val::E(x) => match self.unique(st, *x) { Some(k) => k as u64, None => {
                let b = self.read_sym(st, *x, n)?;
                let r = expr::norm(join(&b));
                return Ok(frx(if bits as usize == n * 8 { r } else { expr::mk_extract(r, 0, bits) }));
            } },
            _ => return Err(Stop::Unsup("load".into())),
        };
        // fast concrete path
        let o = st.mem.obj(&self.base, a).ok_or_else(|| self.oob(st, a, n as u64, "load"))?;
        let off = a as u32 as usize;
        if off + n > o.data.len() { return Err(self.oob(st, a, n as u64, "load")); }
        if !o.is_sym(off, n) && n <= 16 {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(c(u128::from_le_bytes(b) & mask(bits)));
        }
        let b: Vec<X> = (off..off + n).map(|i| o.get(i)).collect();
        let r = expr::norm(join(&b));
        Ok(frx(if bits as usize == n * 8 { r } else { expr::mk_extract(r, 0, bits) }))
    }
    fn store(&mut self, st: &mut State, a: u64, ty: TyId, v: &Val) -> S<()> {
        let info = { let t = self.m.tys.borrow(); let i = &t.v[ty as usize]; match &i.ty { Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => Some(i.clone()), _ => None } };
        if let Some(info) = info {
            let vs = match v { Val::A(x) => x.clone(), _ => return Err(Stop::Unsup("store".into())) };
            match &info.ty {
                Ty::Struct(f, _) => for (i, &x) in f.iter().enumerate() { self.store(st, a + info.offs[i], x, &vs[i])?; },
                Ty::Array(_, e) => { let s = self.m.tys.borrow().v[*e as usize].size; for (i, x) in vs.iter().enumerate() { self.store(st, a + i as u64 * s, *e, x)?; } }
                Ty::Vector(_, e) => {
                    let ew = self.bits(*e);
                    if ew % 8 == 0 { for (i, x) in vs.iter().enumerate() { self.store(st, a + i as u64 * (ew as u64 / 8), *e, x)?; } }
                    else { let w = info.bits; let x = expr::mk_zext(tox(v, w), (w + 7) / 8 * 8); let b: Vec<X> = (0..(w + 7) / 8).map(|i| expr::ext_raw(x, i * 8, 8)).collect(); self.write(st, a, &b)?; }
                }
                _ => unreachable!(),
            }
            return Ok(());
        }
        let bits = self.bits(ty);
        let n = ((bits + 7) / 8) as usize;
        let off = a as u32 as usize;
        let bad = match st.mem.obj(&self.base, a) { Some(o) => off + n > o.data.len() || o.ro, None => true };
        if bad { return Err(self.oob(st, a, n as u64, "store")); }
        let o = st.mem.obj_mut(&self.base, a).unwrap();
        match v {
            Val::C(k) => {
                let m = n.min(16);
                o.data[off..off + m].copy_from_slice(&k.to_le_bytes()[..m]);
                for i in m..n { o.data[off + i] = 0; }
                if let Some(s) = &mut o.sym { for x in &mut s[off..off + n] { *x = 0; } }
            }
            Val::E(x) => { let x = if bits as usize == n * 8 { *x } else { expr::mk_zext(*x, n as u32 * 8) }; for i in 0..n { o.put(off + i, expr::ext_raw(x, i as u32 * 8, 8)); } }
            _ => return Err(Stop::Unsup("store".into())),
        }
        Ok(())
    }
    fn do_alloc(&mut self, st: &mut State, size: &Val, zero: bool) -> S<u64> {
        let _ = zero;
        let n = match size {
            Val::C(k) => *k as u64,
            Val::E(x) => match self.unique(st, *x) {
                Some(k) => k as u64,
                None => {
                    let big = expr::mk_ult(cst(st.alloc_limit as u128, 64), *x);
                    if let Some(d) = self.feasible(st, big, false) {
                        let mut m = st.model.as_ref().clone();
                        for &(v, k) in d.iter() { m[v as usize] = k; }
                        self.record(st, "alloc", "allocation of a size the input merely claims", &m);
                        let small = expr::mk_not(big);
                        match self.feasible(st, small, false) { None => return Err(Stop::Infeasible), Some(d) => { Self::with_model(st, &d); self.add(st, small); } }
                    }
                    return Err(Stop::Conc(*x));
                }
            },
            _ => return Err(Stop::Unsup("alloc".into())),
        };
        if n > st.alloc_limit { return Err(Stop::Viol("alloc".into(), "allocation above the limit".into())); }
        st.alloc_live += n;
        if st.alloc_live > LIVE_MAX { return Err(Stop::Viol("alloc".into(), "more than 1 GiB in use".into())); }
        st.alloc_total += n;
        st.alloc_peak = st.alloc_peak.max(st.alloc_live);
        st.alloc_max = st.alloc_max.max(n);
        Ok(st.mem.alloc(n as usize, true))
    }
    fn do_free(&mut self, st: &mut State, a: u64) -> S<()> {
        if a == 0 { return Ok(()); }
        if (a >> 32) < HEAP0 as u64 { return Err(Stop::Viol("oob".into(), "free of a non-heap pointer".into())); }
        let n = match st.mem.obj(&self.base, a) { Some(o) if a as u32 == 0 => o.data.len() as u64, _ => return Err(Stop::Viol("oob".into(), "invalid free".into())) };
        st.alloc_live -= n;
        st.mem.release(a);
        Ok(())
    }
    fn memcpy(&mut self, st: &mut State, d: &Val, s: &Val, n: &Val) -> S<()> {
        let n = self.conc(st, n)? as usize;
        if n == 0 { return Ok(()); }
        let d = self.conc(st, d)?;
        let sa = match s { Val::C(k) => *k as u64, Val::E(x) => match self.unique(st, *x) { Some(k) => k as u64, None => { if n <= 64 { let b = self.read_sym(st, *x, n)?; return self.write(st, d, &b); } return Err(Stop::Conc(*x)); } }, _ => return Err(Stop::Unsup("memcpy".into())) };
        let so = sa as u32 as usize;
        let dof = d as u32 as usize;
        let src = st.mem.obj(&self.base, sa).ok_or_else(|| self.oob(st, sa, n as u64, "memcpy read"))?.clone();
        if so + n > src.data.len() { return Err(self.oob(st, sa, n as u64, "memcpy read")); }
        let bad = match st.mem.obj(&self.base, d) { Some(o) => dof + n > o.data.len() || o.ro, None => true };
        if bad { return Err(self.oob(st, d, n as u64, "memcpy write")); }
        let o = st.mem.obj_mut(&self.base, d).unwrap();
        o.data[dof..dof + n].copy_from_slice(&src.data[so..so + n]);
        if src.is_sym(so, n) {
            let len = o.data.len();
            let sy = o.sym.get_or_insert_with(|| vec![0; len]);
            sy[dof..dof + n].copy_from_slice(&src.sym.as_ref().unwrap()[so..so + n]);
        } else if let Some(sy) = &mut o.sym { for x in &mut sy[dof..dof + n] { *x = 0; } }
        Ok(())
    }
    fn memset(&mut self, st: &mut State, d: &Val, v: &Val, n: &Val) -> S<()> {
        let n = self.conc(st, n)? as usize;
        if n == 0 { return Ok(()); }
        let a = self.conc(st, d)?;
        match v {
            Val::C(k) => {
                let off = a as u32 as usize;
                let bad = match st.mem.obj(&self.base, a) { Some(o) => off + n > o.data.len() || o.ro, None => true };
                if bad { return Err(self.oob(st, a, n as u64, "memset")); }
                let o = st.mem.obj_mut(&self.base, a).unwrap();
                for x in &mut o.data[off..off + n] { *x = *k as u8; }
                if let Some(s) = &mut o.sym { for x in &mut s[off..off + n] { *x = 0; } }
                Ok(())
            }
            Val::E(x) => { let b = if expr::width(*x) == 8 { *x } else { expr::mk_extract(*x, 0, 8) }; self.write(st, a, &vec![b; n]) }
            _ => Err(Stop::Unsup("memset".into())),
        }
    }

    // ------------------------------------------------------------ calls
    pub fn nat(&self, f: u32) -> N {
        let fu = &self.m.funcs[f as usize];
        let k = *fu.native.get_or_init(|| native(&fu.name, fu.text.is_some()) as u32);
        unsafe { std::mem::transmute(k) }
    }
    fn call(&mut self, st: &mut State, f: &Callee, args: &[(TyId, Opd)], ret: TyId, d: Option<u32>, normal: Option<u32>) -> S<()> {
        let fr = st.frames.last().unwrap();
        let fi = match f {
            Callee::F(i) => *i,
            Callee::Ind(o) => {
                let v = self.val(fr, o);
                let a = self.conc(st, &v)?;
                if a & 0xff00_0000_0000_0000 != FN_BASE { return Err(Stop::Viol("ub".into(), format!("call of {:#x}", a))); }
                ((a & !FN_BASE) >> 4) as u32
            }
            Callee::Asm(s) => {
                let v = if s.contains("cpuid") { Some(Val::A(Rc::new(vec![c(0); 4]))) } else if s.is_empty() { None } else { return Err(Stop::Unsup(format!("asm {}", s))) };
                return self.ret_native(st, v, d, normal);
            }
        };
        let av: Vec<(TyId, Val)> = args.iter().map(|(t, o)| (*t, self.val(fr, o))).collect();
        let n = self.nat(fi);
        if n == N::Utf8 && st.ascii && av.len() == 3 {
            // the harness restricts texts to ASCII from here on
            let p = self.conc(st, &av[1].1)?;
            let k = self.conc(st, &av[2].1)? as usize;
            let b = self.read(st, p, k)?;
            let mut g = expr::tru();
            for x in b { g = expr::mk_and(expr::mk_ult(x, cst(0x80, 8)), g); }
            match self.feasible(st, g, false) { None => return Err(Stop::Infeasible), Some(d) => { Self::with_model(st, &d); self.add(st, g); } }
        }
        if n == N::None || n == N::Utf8 {
            let body = self.m.body(fi);
            let fu = &self.m.funcs[fi as usize];
            fu.calls.set(fu.calls.get() + 1);
            if st.frames.len() > 6000 { return Err(Stop::Viol("stack".into(), "unbounded recursion".into())); }
            let mut regs = vec![c(0); body.nregs as usize];
            for (i, (_, r)) in body.params.iter().enumerate() { regs[*r as usize] = av[i].1.clone(); }
            st.frames.push(Frame { f: fi, body, block: 0, ip: 0, regs, allocas: vec![], ret: d, normal });
            return Ok(());
        }
        let v = match self.intrinsic(n, &av, ret) { Ok(Some(v)) => Some(v), Ok(None) => self.native_call(st, n, fi, &av)?, Err(e) => return Err(e) };
        self.ret_native(st, v, d, normal)
    }
    fn ret_native(&mut self, st: &mut State, v: Option<Val>, d: Option<u32>, normal: Option<u32>) -> S<()> {
        if let (Some(d), Some(v)) = (d, v) { st.fr().regs[d as usize] = v; }
        if let Some(nb) = normal { self.jump(st, nb); } else { st.fr().ip += 1; }
        Ok(())
    }
    fn intrinsic(&mut self, n: N, a: &[(TyId, Val)], ret: TyId) -> S<Option<Val>> {
        if let Some((t, Val::A(v0))) = a.get(0) {
            if matches!(n, N::VecReduceOr | N::VecReduceAnd | N::VecReduceAdd) {
                let w = self.bits(ret);
                let mut r = tox(&v0[0], w);
                for y in v0.iter().skip(1) { let y = tox(y, w); r = match n { N::VecReduceOr => expr::mk_or(r, y), N::VecReduceAnd => expr::mk_and(r, y), _ => expr::mk_add(r, y) }; }
                return Ok(Some(frx(r)));
            }
            if !matches!(n, N::UMin | N::UMax | N::SMin | N::SMax | N::USubSat | N::UAddSat | N::Abs | N::Bswap | N::Ctpop | N::Fshl | N::Fshr) { return Ok(None); }
            let e = self.elem(*t).unwrap();
            let er = self.elem(ret).unwrap();
            let mut out = vec![];
            for i in 0..v0.len() {
                let av: Vec<(TyId, Val)> = a.iter().map(|(t, v)| match v { Val::A(x) => (e, x[i].clone()), v => (*t, v.clone()) }).collect();
                match self.intrinsic(n, &av, er)? { Some(v) => out.push(v), None => return Err(Stop::Unsup("vector intrinsic".into())) }
            }
            return Ok(Some(Val::A(Rc::new(out))));
        }
        let w = a.get(0).map(|x| self.bits(x.0)).unwrap_or(0);
        let x = |i: usize| tox(&a[i].1, w);
        let two = |v: X, o: X| Some(Val::A(Rc::new(vec![frx(v), frx(o)])));
        Ok(match n {
            N::UMin => Some(frx(expr::mk_ite(expr::mk_ult(x(0), x(1)), x(0), x(1)))),
            N::UMax => Some(frx(expr::mk_ite(expr::mk_ult(x(0), x(1)), x(1), x(0)))),
            N::SMin => Some(frx(expr::mk_ite(expr::mk_slt(x(0), x(1)), x(0), x(1)))),
            N::SMax => Some(frx(expr::mk_ite(expr::mk_slt(x(0), x(1)), x(1), x(0)))),
            N::USubSat => Some(frx(expr::mk_ite(expr::mk_ult(x(0), x(1)), cst(0, w), expr::mk_sub(x(0), x(1))))),
            N::UAddSat => { let s = expr::mk_add(x(0), x(1)); Some(frx(expr::mk_ite(expr::mk_ult(s, x(0)), cst(!0, w), s))) }
            N::SSubSat | N::SAddSat => match (&a[0].1, &a[1].1) { (Val::C(p), Val::C(q)) => { let r = if n == N::SSubSat { sx(*p, w) - sx(*q, w) } else { sx(*p, w) + sx(*q, w) }; let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1); Some(c(r.clamp(lo, hi) as u128 & mask(w))) } _ => return Err(Stop::Unsup("sat".into())) },
            N::Fshl | N::Fshr => match konst(x(2)) {
                Some(k) => { let k = (k % w as u128) as u32; if k == 0 { return Ok(Some(frx(if n == N::Fshl { x(0) } else { x(1) }))); } let l = if n == N::Fshl { k } else { w - k }; Some(frx(expr::mk_concat(expr::mk_extract(x(0), 0, w - l), expr::mk_extract(x(1), w - l, l)))) }
                None => { if n == N::Fshr { return Err(Stop::Unsup("fshr".into())); } let k = expr::mk_and(x(2), cst(w as u128 - 1, w)); let r = expr::mk_or(expr::mk_shl(x(0), k), expr::mk_lshr(x(1), expr::mk_sub(cst(w as u128, w), k))); Some(frx(expr::mk_ite(expr::mk_eq(k, cst(0, w)), x(0), r))) }
            },
            N::Ctlz => { let v = x(0); if let Some(k) = konst(v) { return Ok(Some(c(if k == 0 { w as u128 } else { (k.leading_zeros() - (128 - w)) as u128 }))); } let mut r = cst(w as u128, w); for i in 0..w { r = expr::mk_ite(expr::mk_extract(v, i, 1), cst((w - 1 - i) as u128, w), r); } Some(frx(r)) }
            N::Cttz => { let v = x(0); if let Some(k) = konst(v) { return Ok(Some(c(if k == 0 { w as u128 } else { k.trailing_zeros() as u128 }))); } let mut r = cst(w as u128, w); for i in (0..w).rev() { r = expr::mk_ite(expr::mk_extract(v, i, 1), cst(i as u128, w), r); } Some(frx(r)) }
            N::Ctpop => { let v = x(0); if let Some(k) = konst(v) { return Ok(Some(c(k.count_ones() as u128))); } let mut r = cst(0, w); for i in 0..w { r = expr::mk_add(r, expr::mk_zext(expr::mk_extract(v, i, 1), w)); } Some(frx(r)) }
            N::Bswap => { let v = x(0); if let Some(k) = konst(v) { return Ok(Some(c(k.swap_bytes() >> (128 - w)))); } let mut r = expr::ext_raw(v, 0, 8); for i in 1..w / 8 { r = expr::mk_concat(r, expr::ext_raw(v, i * 8, 8)); } Some(frx(r)) }
            N::Bitrev => { let v = x(0); if let Some(k) = konst(v) { return Ok(Some(c(k.reverse_bits() >> (128 - w)))); } let mut r = expr::ext_raw(v, 0, 1); for i in 1..w { r = expr::mk_concat(r, expr::ext_raw(v, i, 1)); } Some(frx(r)) }
            N::Abs => { let v = x(0); Some(frx(expr::mk_ite(expr::mk_slt(v, cst(0, w)), expr::mk_sub(cst(0, w), v), v))) }
            N::UCmp | N::SCmp => { let rw = self.bits(ret); let f = if n == N::UCmp { expr::mk_ult } else { expr::mk_slt }; Some(frx(expr::mk_ite(f(x(0), x(1)), cst(!0, rw), expr::mk_ite(expr::mk_eq(x(0), x(1)), cst(0, rw), cst(1, rw))))) }
            N::UAddO => { let s = expr::mk_add(x(0), x(1)); two(s, expr::mk_ult(s, x(0))) }
            N::USubO => two(expr::mk_sub(x(0), x(1)), expr::mk_ult(x(0), x(1))),
            N::SAddO | N::SSubO => { if w >= 128 { return Err(Stop::Unsup("saddo".into())); } let e = |v| expr::mk_sext(v, w + 1); let s = if n == N::SAddO { expr::mk_add(e(x(0)), e(x(1))) } else { expr::mk_sub(e(x(0)), e(x(1))) }; let r = expr::mk_extract(s, 0, w); two(r, expr::mk_ne(expr::mk_sext(r, w + 1), s)) }
            N::UMulO => {
                if w > 64 { return match (&a[0].1, &a[1].1) { (Val::C(p), Val::C(q)) => { let (r, o) = p.overflowing_mul(*q); Ok(two(cst(r, w), cst((o || r > mask(w)) as u128, 1))) } _ => Err(Stop::Unsup("umulo 128".into())) }; }
                let r = expr::mk_mul(x(0), x(1));
                let o = match (konst(x(0)), konst(x(1))) { (Some(p), Some(q)) => cst((p * q > mask(w)) as u128, 1), (None, Some(k)) | (Some(k), None) if k != 0 => { let v = if konst(x(0)).is_some() { x(1) } else { x(0) }; expr::mk_ult(cst(mask(w) / k, w), v) } _ => { let p = expr::mk_mul(expr::mk_zext(x(0), 2 * w), expr::mk_zext(x(1), 2 * w)); expr::mk_ne(expr::mk_extract(p, w, w), cst(0, w)) } };
                two(r, o)
            }
            N::SMulO => match (&a[0].1, &a[1].1) { (Val::C(p), Val::C(q)) => { let r = sx(*p, w).wrapping_mul(sx(*q, w)); let t = cst(r as u128, w); two(t, cst((sx(konst(t).unwrap(), w) != r) as u128, 1)) } _ => return Err(Stop::Unsup("smulo".into())) },
            N::Id0 => Some(a[0].1.clone()),
            N::IsConst => Some(c(0)),
            N::Fabs => match a[0].1 { Val::C(k) => Some(c(k & mask(w - 1))), _ => return Err(Stop::Unsup("fabs".into())) },
            _ => None,
        })
    }
    fn fresh(&mut self, st: &mut State, init: u8) -> X {
        let v = st.nvars;
        st.nvars += 1;
        Rc::make_mut(&mut st.vars).push(VarInfo { dom: [!0; 4], ent: false });
        Rc::make_mut(&mut st.model).push(init);
        expr::var(v)
    }
    fn native_call(&mut self, st: &mut State, n: N, fi: u32, a: &[(TyId, Val)]) -> S<Option<Val>> {
        let v = |i: usize| a[i].1.clone();
        Ok(match n {
            N::Nop => None,
            N::Memcpy | N::CMemcpy => { self.memcpy(st, &v(0), &v(1), &v(2))?; Some(v(0)) }
            N::Memset | N::CMemset => { self.memset(st, &v(0), &v(1), &v(2))?; Some(v(0)) }
            N::RAlloc | N::RZalloc | N::Malloc => Some(c(self.do_alloc(st, &v(0), true)? as u128)),
            N::Calloc => { let p = self.conc(st, &v(0))?; let q = self.conc(st, &v(1))?; Some(c(self.do_alloc(st, &c(p as u128 * q as u128), true)? as u128)) }
            N::RDealloc | N::Free => { let p = self.conc(st, &v(0))?; self.do_free(st, p)?; None }
            N::RRealloc | N::Realloc => {
                let p = self.conc(st, &v(0))?;
                let nsz = if n == N::Realloc { v(1) } else { v(3) };
                let q = self.do_alloc(st, &nsz, false)?;
                if p != 0 {
                    let old = st.mem.obj(&self.base, p).ok_or_else(|| self.oob(st, p, 1, "realloc"))?.data.len();
                    let new = st.mem.obj(&self.base, q).unwrap().data.len();
                    self.memcpy(st, &c(q as u128), &c(p as u128), &c(old.min(new) as u128))?;
                    self.do_free(st, p)?;
                }
                Some(c(q as u128))
            }
            N::PosixMemalign => { let p = self.do_alloc(st, &v(2), false)?; let d = self.conc(st, &v(0))?; let b: Vec<X> = p.to_le_bytes().iter().map(|&x| cst(x as u128, 8)).collect(); self.write(st, d, &b)?; Some(c(0)) }
            N::Bcmp | N::Memcmp => {
                let k = self.conc(st, &v(2))? as usize;
                let get = |eng: &mut Engine, p: Val| -> S<Vec<X>> { if k == 0 { return Ok(vec![]); } match p { Val::C(q) => eng.read(st, q as u64, k), Val::E(x) => if k <= 64 { eng.read_sym(st, x, k) } else { let q = eng.conc(st, &Val::E(x))?; eng.read(st, q, k) }, _ => Err(Stop::Unsup("bcmp".into())) } };
                let p = get(self, v(0))?;
                let q = get(self, v(1))?;
                if n == N::Bcmp {
                    let mut e = expr::tru();
                    for i in 0..k { e = expr::mk_and(expr::mk_eq(p[i], q[i]), e); if konst(e) == Some(0) { break; } }
                    Some(frx(expr::mk_ite(e, cst(0, 32), cst(1, 32))))
                } else {
                    let mut r = cst(0, 32);
                    for i in (0..k).rev() { r = expr::mk_ite(expr::mk_eq(p[i], q[i]), r, expr::mk_ite(expr::mk_ult(p[i], q[i]), cst(!0, 32), cst(1, 32))); }
                    Some(frx(r))
                }
            }
            N::Strlen => { let p = self.conc(st, &v(0))?; let mut i = 0; loop { let b = self.read_conc(st, p + i, 1)?; if b[0] == 0 { break; } i += 1; } Some(c(i as u128)) }
            N::Panic => {
                let mut msg = String::from("panic");
                // last pointer argument: &Location { file ptr, len, line, col }
                if let Some((_, Val::C(p))) = a.last() {
                    let p = *p as u64;
                    if let Some(o) = st.mem.obj(&self.base, p) {
                        let off = p as u32 as usize;
                        if off + 24 <= o.data.len() {
                            let g = |i: usize| u64::from_le_bytes(o.data[off + i..off + i + 8].try_into().unwrap());
                            let (fp, fl, lc) = (g(0), g(8), g(16));
                            if let Some(fo) = st.mem.obj(&self.base, fp) { if (fl as usize) <= fo.data.len() { msg = format!("panic at {}:{}", String::from_utf8_lossy(&fo.data[..fl as usize]), lc as u32); } }
                        }
                    }
                }
                return Err(Stop::Viol("panic".into(), msg));
            }
            N::AllocErr => return Err(Stop::Viol("alloc".into(), "allocation failure".into())),
            N::Abort | N::Trap => return Err(Stop::Viol("panic".into(), "abort".into())),
            N::Exit => return Err(Stop::Done("exit")),
            N::SymBytes => {
                let p = self.conc(st, &v(0))?;
                let k = self.conc(st, &v(1))? as usize;
                let first = st.nvars;
                let xs: Vec<X> = (0..k).map(|_| { let h = (st.nvars as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(self.seed.wrapping_mul(0xD134_2543_DE82_EF95)); self.fresh(st, (h >> 40) as u8) }).collect();
                self.write(st, p, &xs)?;
                Rc::make_mut(&mut st.inputs).push(Inp::Bytes(first, k as u32));
                None
            }
            N::SymChoice => {
                let k = self.conc(st, &v(0))?;
                match st.choice.take() {
                    None => { if k == 1 { Rc::make_mut(&mut st.inputs).push(Inp::Choice(0)); return Ok(Some(c(0))); } return Err(Stop::Choice(k)); }
                    Some(q) => { Rc::make_mut(&mut st.inputs).push(Inp::Choice(q)); Some(c(q as u128)) }
                }
            }
            N::SymAssume => {
                let x = tox(&v(0), 1);
                match self.feasible(st, x, false) { None => return Err(Stop::Infeasible), Some(d) => { Self::with_model(st, &d); self.add(st, x); None } }
            }
            N::SymAssert => {
                self.st.asserts += 1;
                let x = tox(&v(0), 1);
                let id = self.conc(st, &v(1))?;
                match konst(x) {
                    Some(1) => { self.st.asserts_const += 1; None }
                    Some(_) => return Err(Stop::Viol("assert".into(), format!("assertion {}", id))),
                    None => {
                        self.st.asserts_z3 += 1;
                        let nx = expr::mk_not(x);
                        if let Some(d) = self.feasible(st, nx, true) {
                            let mut m = st.model.as_ref().clone();
                            for &(v, k) in d.iter() { m[v as usize] = k; }
                            self.record(st, "assert", &format!("assertion {}", id), &m);
                            match self.feasible(st, x, false) { None => return Err(Stop::Infeasible), Some(d) => { Self::with_model(st, &d); self.add(st, x); } }
                        }
                        None
                    }
                }
            }
            N::SymReach => { let id = self.conc(st, &v(0))? as u32; Rc::make_mut(&mut st.reach).push(id); None }
            N::SymDone => return Err(Stop::Done("done")),
            N::SymSame => {
                let p = self.conc(st, &v(0))?;
                let q = self.conc(st, &v(1))?;
                let k = self.conc(st, &v(2))? as usize;
                let (a, b) = (self.read(st, p, k)?, self.read(st, q, k)?);
                let mut e = expr::tru();
                for i in 0..k { e = expr::mk_and(expr::mk_eq(a[i], b[i]), e); if konst(e) == Some(0) { break; } }
                if konst(e) == Some(1) && a.iter().zip(b.iter()).any(|(x, y)| konst(*x).is_none() || konst(*y).is_none()) {
                    // made equal by rewriting while executing: have the solver confirm it on the terms themselves
                    let t = Instant::now();
                    let r = self.z3.check_equal(&a, &b);
                    self.st.q += 1;
                    self.st.eq_q += 1;
                    self.st.q_ms += t.elapsed().as_secs_f64() * 1000.0;
                    if r { self.st.q_unsat += 1; } else { self.st.q_unk += 1; *self.unsup.entry("solver does not confirm an equality".into()).or_insert(0) += 1; }
                }
                Some(frx(e))
            }
            N::SymKeccak => {
                let p = self.conc(st, &v(0))?;
                let k = self.conc(st, &v(1))? as usize;
                let o = self.conc(st, &v(2))?;
                let pre = self.read(st, p, k)?;
                let pre: Vec<X> = pre.into_iter().map(|x| match self.unique(st, x) { Some(k) => cst(k, 8), None => x }).collect();
                let out = self.keccak(st, pre)?;
                self.write(st, o, &out)?;
                None
            }
            N::SymConc => Some(c(self.conc(st, &v(0))? as u128)),
            N::SymAllocReset => { st.alloc_total = 0; st.alloc_peak = st.alloc_live; st.alloc_base = st.alloc_live; st.alloc_max = 0; Some(c(st.alloc_live as u128)) }
            N::SymAllocTotal => Some(c(st.alloc_total as u128)),
            N::SymAllocPeak => Some(c(st.alloc_peak.saturating_sub(st.alloc_base) as u128)),
            N::SymAllocMax => Some(c(st.alloc_max as u128)),
            N::SymAllocLimit => { st.alloc_limit = self.conc(st, &v(0))?; None }
            N::SymOpt => { let k = self.conc(st, &v(0))?; let y = self.conc(st, &v(1))?; let x = y != 0; match k { 1 => st.ascii = x, 2 => st.hash_seed = y, 3 => st.lin = x, _ => return Err(Stop::Unsup("option".into())) } None }
            N::SymNoMerge => { st.nomerge = self.conc(st, &v(0))? != 0; None }
            N::SymObserve => { let p = self.conc(st, &v(0))?; let k = self.conc(st, &v(1))? as usize; let b = self.read(st, p, k)?; Rc::make_mut(&mut st.obs).push(b); None }
            N::SymPrint => { let p = self.conc(st, &v(0))?; let k = self.conc(st, &v(1))? as usize; let b = self.read(st, p, k)?; let s: Vec<u8> = b.iter().map(|&x| expr::eval(x, &st.model) as u8).collect(); eprintln!("[print] {}", String::from_utf8_lossy(&s)); None }
            N::SymFile => { let (p, k, q, l) = (self.conc(st, &v(0))?, self.conc(st, &v(1))?, self.conc(st, &v(2))?, self.conc(st, &v(3))?); let name = self.read_conc(st, p, k as usize)?; Rc::make_mut(&mut st.files).push((name, q, l)); None }
            N::Getenv => Some(c(0)),
            N::Errno => Some(c(st.errno as u128)),
            N::Zero => Some(c(0)),
            N::MinusOne => Some(c(mask(32))),
            N::Syscall => {
                let nr = self.conc(st, &v(0))?;
                if nr == 318 { let p = self.conc(st, &v(1))?; let k = self.conc(st, &v(2))?; let b = random(st.hash_seed, k); self.write(st, p, &b)?; return Ok(Some(c(k as u128))); }
                return Err(Stop::Unsup(format!("syscall {}", nr)));
            }
            N::Getrandom => { let p = self.conc(st, &v(0))?; let k = self.conc(st, &v(1))?; let b = random(st.hash_seed, k); self.write(st, p, &b)?; Some(c(k as u128)) }
            N::Write => { let k = v(2); Some(k) }
            N::Open => {
                let p = self.conc(st, &v(0))?;
                let mut name = vec![];
                let mut i = 0;
                loop { let b = self.read_conc(st, p + i, 1)?[0]; if b == 0 { break; } name.push(b); i += 1; }
                let found = st.files.iter().find(|f| f.0 == name).cloned();
                let data = match found {
                    Some((_, q, l)) => Some(self.read_conc(st, q, l as usize)?),
                    None => std::fs::read(String::from_utf8_lossy(&name).to_string()).ok(),
                };
                match data {
                    Some(d) => { let m = Rc::make_mut(&mut st.fds); let fd = 100 + m.len() as u64; m.insert(fd, (Rc::new(d), 0)); Some(c(fd as u128)) }
                    None => { let e = st.errno; self.write(st, e, &[cst(2, 8), cst(0, 8), cst(0, 8), cst(0, 8)])?; Some(c(mask(32))) }
                }
            }
            N::Read => {
                let fd = self.conc(st, &v(0))?;
                let p = self.conc(st, &v(1))?;
                let k = self.conc(st, &v(2))? as usize;
                let (d, pos) = match st.fds.get(&fd) { Some(x) => x.clone(), None => return Err(Stop::Unsup("read".into())) };
                let k = k.min(d.len() - pos);
                let b: Vec<X> = d[pos..pos + k].iter().map(|&x| cst(x as u128, 8)).collect();
                self.write(st, p, &b)?;
                Rc::make_mut(&mut st.fds).get_mut(&fd).unwrap().1 += k;
                Some(c(k as u128))
            }
            N::Close => Some(c(0)),
            N::Lseek => { let fd = self.conc(st, &v(0))?; match st.fds.get(&fd) { Some(x) => Some(c(x.1 as u128)), None => return Err(Stop::Unsup("lseek".into())) } }
            N::Fstat => {
                let fd = self.conc(st, &v(0))?;
                let p = self.conc(st, &v(1))?;
                let l = match st.fds.get(&fd) { Some(x) => x.0.len() as u64, None => return Err(Stop::Unsup("fstat".into())) };
                let mut b = vec![0u8; 144];
                b[24..28].copy_from_slice(&0o100644u32.to_le_bytes());
                b[48..56].copy_from_slice(&l.to_le_bytes());
                let b: Vec<X> = b.into_iter().map(|x| cst(x as u128, 8)).collect();
                self.write(st, p, &b)?;
                Some(c(0))
            }
            _ => return Err(Stop::Unsup(format!("external {}", self.m.funcs[fi as usize].name))),
        })
    }
    /// Keccak-256: computed for concrete data; for symbolic data an unknown but
    /// functional and collision-free value.
    fn keccak(&mut self, st: &mut State, pre: Vec<X>) -> S<Vec<X>> {
        for (p, o) in st.hashes.iter() { if *p == pre { return Ok(o.clone()); } }
        let all: Option<Vec<u8>> = pre.iter().map(|&x| konst(x).map(|k| k as u8)).collect();
        let out: Vec<X> = match &all {
            Some(b) => keccak256(b).iter().map(|&x| cst(x as u128, 8)).collect(),
            None => {
                // initial guess: the real hash under the current model
                let b: Vec<u8> = pre.iter().map(|&x| expr::eval(x, &st.model) as u8).collect();
                let h = keccak256(&b);
                (0..32).map(|i| self.fresh(st, h[i])).collect()
            }
        };
        let sym = all.is_none();
        let old = st.hashes.clone();
        for (p, o) in old.iter() {
            let osym = p.iter().any(|&x| konst(x).is_none());
            if !sym && !osym { continue; }
            let mut eo = expr::tru();
            for i in 0..32 { eo = expr::mk_and(expr::mk_eq(out[i], o[i]), eo); }
            let ax = if p.len() != pre.len() { expr::mk_not(eo) } else {
                let mut ep = expr::tru();
                for i in 0..pre.len() { ep = expr::mk_and(expr::mk_eq(pre[i], p[i]), ep); }
                if konst(ep) == Some(0) { expr::mk_not(eo) } else { expr::mk_eq(ep, eo) }
            };
            match self.feasible(st, ax, false) { None => return Err(Stop::Infeasible), Some(d) => { Self::with_model(st, &d); self.add(st, ax); } }
        }
        Rc::make_mut(&mut st.hashes).push((pre, out.clone()));
        Ok(out)
    }
}

fn join(b: &[X]) -> X { let mut r = b[b.len() - 1]; for i in (0..b.len() - 1).rev() { r = expr::mk_concat(r, b[i]); } r }
fn tree(off: X, k: &[usize], l: &[X]) -> X {
    if l.iter().all(|&x| x == l[0]) { return l[0]; }
    let m = k.len() / 2;
    let a = tree(off, &k[..m], &l[..m]);
    let b = tree(off, &k[m..], &l[m..]);
    expr::mk_ite(expr::mk_ult(off, cst(k[m] as u128, expr::width(off))), a, b)
}
struct Pend { guard: X, delta: HashMap<u32, Val>, stop: bool }
type PendMap = BTreeMap<(u32, u32, u32), Pend>;
fn getv(fr: &Frame, d: &HashMap<u32, Val>, o: &Opd) -> Val { match o { Opd::K(v) => v.clone(), Opd::R(r) => d.get(r).cloned().unwrap_or_else(|| fr.regs[*r as usize].clone()) } }
fn add_edge(pend: &mut PendMap, fr: &Frame, guard: X, from: u32, from_rpo: u32, start_rpo: u32, to: u32, d: &HashMap<u32, Val>, seq: &mut u32, nomerge: bool, merges: &mut u64) {
    if konst(guard) == Some(0) { return; }
    let body = fr.body;
    let b = &body.blocks[to as usize];
    let mut nd = d.clone();
    let vs: Vec<(u32, Val)> = b.phis.iter().map(|p| (p.d, getv(fr, d, &p.inc.iter().find(|x| x.0 == from).expect("phi").1))).collect();
    for (r, v) in vs { nd.insert(r, v); }
    let back = b.rpo <= from_rpo || b.rpo <= start_rpo;
    let rp = if back { u32::MAX } else { b.rpo };
    if !nomerge {
        let keys: Vec<(u32, u32, u32)> = pend.range((rp, to, 0)..=(rp, to, u32::MAX)).map(|x| *x.0).collect();
        for k in keys {
            let e = pend.get_mut(&k).unwrap();
            if nd.iter().all(|(r, v)| e.delta.get(r).map_or(true, |o| mergeable(body.phiw.get(r), o, v))) {
                for (r, v) in nd { let nv = match e.delta.get(&r) { Some(o) => merge_val(guard, body.phiw.get(&r), &v, o), None => v }; e.delta.insert(r, nv); }
                e.guard = expr::mk_or(e.guard, guard);
                *merges += 1;
                return;
            }
        }
    }
    *seq += 1;
    pend.insert((rp, to, *seq), Pend { guard, delta: nd, stop: back });
}
fn same(a: &Val, b: &Val) -> bool {
    match (a, b) { (Val::C(x), Val::C(y)) => x == y, (Val::E(x), Val::E(y)) => x == y, (Val::A(x), Val::A(y)) => Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same(p, q))), _ => false }
}
/// Only phi values can differ between two paths into a block. Addresses and
/// size-like concrete numbers stay concrete (those paths are kept apart).
fn mergeable(w: Option<&(u32, bool)>, a: &Val, b: &Val) -> bool {
    if same(a, b) { return true; }
    match w {
        Some(&(w, false)) if w > 0 => match (a, b) { (Val::C(_), Val::C(_)) => w < 64, (Val::A(_), _) | (_, Val::A(_)) => false, _ => true },
        _ => false,
    }
}
fn merge_val(g: X, w: Option<&(u32, bool)>, n: &Val, o: &Val) -> Val {
    if same(n, o) { return n.clone(); }
    let w = w.unwrap().0;
    frx(expr::mk_ite(g, tox(n, w), tox(o, w)))
}
