//! Z3 through its C API (loaded with dlopen, no build-time dependency).
#![allow(non_snake_case, non_camel_case_types)]
use crate::expr::{self, nd, Op, X};
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
}
type P = *mut c_void;

macro_rules! api {
    ($($name:ident ( $($t:ty),* ) -> $r:ty;)*) => {
        #[derive(Clone, Copy)]
        pub struct Api { $(pub $name: unsafe extern "C" fn($($t),*) -> $r,)* }
        impl Api {
            unsafe fn load(h: P) -> Result<Api, String> {
                $( let $name = { let n = CString::new(concat!("Z3_", stringify!($name))).unwrap(); let p = dlsym(h, n.as_ptr()); if p.is_null() { return Err(format!("missing symbol {:?}", n)); } p }; )*
                Ok(Api { $($name: std::mem::transmute($name),)* })
            }
        }
    }
}
api! {
    mk_config() -> P;
    mk_context_rc(P) -> P;
    set_error_handler(P, P) -> ();
    global_param_set(*const c_char, *const c_char) -> ();
    inc_ref(P, P) -> ();
    dec_ref(P, P) -> ();
    mk_int_symbol(P, c_int) -> P;
    mk_string_symbol(P, *const c_char) -> P;
    mk_bv_sort(P, c_uint) -> P;
    mk_const(P, P, P) -> P;
    mk_true(P) -> P;
    mk_false(P) -> P;
    mk_numeral(P, *const c_char, P) -> P;
    mk_unsigned_int64(P, u64, P) -> P;
    mk_bvadd(P, P, P) -> P;
    mk_bvsub(P, P, P) -> P;
    mk_bvmul(P, P, P) -> P;
    mk_bvudiv(P, P, P) -> P;
    mk_bvurem(P, P, P) -> P;
    mk_bvsdiv(P, P, P) -> P;
    mk_bvsrem(P, P, P) -> P;
    mk_bvand(P, P, P) -> P;
    mk_bvor(P, P, P) -> P;
    mk_bvxor(P, P, P) -> P;
    mk_bvshl(P, P, P) -> P;
    mk_bvlshr(P, P, P) -> P;
    mk_bvashr(P, P, P) -> P;
    mk_bvult(P, P, P) -> P;
    mk_bvslt(P, P, P) -> P;
    mk_eq(P, P, P) -> P;
    mk_ite(P, P, P, P) -> P;
    mk_not(P, P) -> P;
    mk_and(P, c_uint, *const P) -> P;
    mk_or(P, c_uint, *const P) -> P;
    mk_concat(P, P, P) -> P;
    mk_extract(P, c_uint, c_uint, P) -> P;
    mk_sign_ext(P, c_uint, P) -> P;
    mk_solver_for_logic(P, P) -> P;
    mk_simple_solver(P) -> P;
    solver_inc_ref(P, P) -> ();
    solver_dec_ref(P, P) -> ();
    solver_set_params(P, P, P) -> ();
    solver_push(P, P) -> ();
    solver_pop(P, P, c_uint) -> ();
    solver_reset(P, P) -> ();
    solver_assert(P, P, P) -> ();
    solver_check(P, P) -> c_int;
    solver_get_model(P, P) -> P;
    mk_params(P) -> P;
    params_inc_ref(P, P) -> ();
    params_set_uint(P, P, P, c_uint) -> ();
    model_inc_ref(P, P) -> ();
    model_dec_ref(P, P) -> ();
    model_eval(P, P, P, bool, *mut P) -> bool;
    get_numeral_uint64(P, P, *mut u64) -> bool;
    get_error_code(P) -> c_int;
    get_error_msg(P, c_int) -> *const c_char;
    get_version(*mut c_uint, *mut c_uint, *mut c_uint, *mut c_uint) -> ();
}

pub enum Res { Sat(Vec<(u32, u8)>), Unsat, Unknown }

pub struct Z3 {
    a: Api,
    c: P,
    bv: Vec<P>,
    bo: Vec<P>,
    solver: P,
    pub version: String,
    pub lib: String,
}

static MSG: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe extern "C" fn on_err(c: P, e: c_int) {
    let f: unsafe extern "C" fn(P, c_int) -> *const c_char = std::mem::transmute(MSG.load(std::sync::atomic::Ordering::SeqCst));
    eprintln!("ENGINE-ERROR z3 error code {} {:?}", e, std::ffi::CStr::from_ptr(f(c, e)));
    std::process::abort();
}

impl Z3 {
    pub fn new(rlimit: u32) -> Z3 {
        unsafe {
            let mut cands: Vec<String> = vec![];
            if let Ok(p) = std::env::var("SYMIR_Z3") { cands.push(p); }
            cands.push("/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so".into());
            cands.push("/usr/lib/x86_64-linux-gnu/libz3.so".into());
            cands.push("libz3.so.4".into());
            cands.push("libz3.so".into());
            let mut h = std::ptr::null_mut();
            let mut lib = String::new();
            for c in cands { let s = CString::new(c.clone()).unwrap(); h = dlopen(s.as_ptr(), 2); if !h.is_null() { lib = c; break; } }
            if h.is_null() { eprintln!("ENGINE-ERROR cannot load libz3"); std::process::exit(3); }
            let a = Api::load(h).unwrap_or_else(|e| { eprintln!("ENGINE-ERROR {}", e); std::process::exit(3) });
            MSG.store(a.get_error_msg as usize, std::sync::atomic::Ordering::SeqCst);
            let cfg = (a.mk_config)();
            let c = (a.mk_context_rc)(cfg);
            (a.set_error_handler)(c, on_err as *const () as P);
            let (mut v1, mut v2, mut v3, mut v4) = (0, 0, 0, 0);
            (a.get_version)(&mut v1, &mut v2, &mut v3, &mut v4);
            let logic = CString::new("QF_BV").unwrap();
            let solver = (a.mk_solver_for_logic)(c, (a.mk_string_symbol)(c, logic.as_ptr()));
            (a.solver_inc_ref)(c, solver);
            let p = (a.mk_params)(c);
            (a.params_inc_ref)(c, p);
            let n = CString::new("timeout").unwrap();
            (a.params_set_uint)(c, p, (a.mk_string_symbol)(c, n.as_ptr()), if rlimit > 0 { rlimit } else { 20_000 });
            (a.solver_set_params)(c, solver, p);
            Z3 { a, c, bv: vec![], bo: vec![], solver, version: format!("{}.{}.{}", v1, v2, v3), lib }
        }
    }
    fn slot(v: &mut Vec<P>, x: X) -> &mut P {
        if v.len() <= x as usize { v.resize(x as usize + 1024, std::ptr::null_mut()); }
        &mut v[x as usize]
    }
    /// width-1 term as Bool
    fn bool_(&mut self, x: X) -> P {
        let s = *Self::slot(&mut self.bo, x);
        if !s.is_null() { return s; }
        let n = nd(x);
        let (a, c) = (self.a, self.c);
        let r = unsafe {
            match n.op {
                Op::Const => if n.k == 1 { (a.mk_true)(c) } else { (a.mk_false)(c) },
                Op::Not => { let y = self.bool_(n.a); (a.mk_not)(c, y) }
                Op::And => { let v = [self.bool_(n.a), self.bool_(n.b)]; (a.mk_and)(c, 2, v.as_ptr()) }
                Op::Or => { let v = [self.bool_(n.a), self.bool_(n.b)]; (a.mk_or)(c, 2, v.as_ptr()) }
                Op::Eq => { if nd(n.a).w == 1 { let (p, q) = (self.bool_(n.a), self.bool_(n.b)); (a.mk_eq)(c, p, q) } else { let (p, q) = (self.bits(n.a), self.bits(n.b)); (a.mk_eq)(c, p, q) } }
                Op::Ult => { let (p, q) = (self.bits(n.a), self.bits(n.b)); (a.mk_bvult)(c, p, q) }
                Op::Slt => { let (p, q) = (self.bits(n.a), self.bits(n.b)); (a.mk_bvslt)(c, p, q) }
                Op::Ite => { let (p, q, r) = (self.bool_(n.a), self.bool_(n.b), self.bool_(n.c)); (a.mk_ite)(c, p, q, r) }
                _ => { let p = self.bits(x); let one = (a.mk_unsigned_int64)(c, 1, (a.mk_bv_sort)(c, 1)); (a.mk_eq)(c, p, one) }
            }
        };
        unsafe { (a.inc_ref)(c, r) };
        *Self::slot(&mut self.bo, x) = r;
        r
    }
    fn bits(&mut self, x: X) -> P {
        let s = *Self::slot(&mut self.bv, x);
        if !s.is_null() { return s; }
        let n = nd(x);
        let (a, c) = (self.a, self.c);
        let r = unsafe {
            let sort = (a.mk_bv_sort)(c, n.w);
            match n.op {
                Op::Const => if n.k <= u64::MAX as u128 { (a.mk_unsigned_int64)(c, n.k as u64, sort) } else { let s = CString::new(n.k.to_string()).unwrap(); (a.mk_numeral)(c, s.as_ptr(), sort) },
                Op::Var => (a.mk_const)(c, (a.mk_int_symbol)(c, n.k as c_int), sort),
                Op::Eq | Op::Ult | Op::Slt | Op::Not => { let b = self.bool_(x); self.b2bv(b) }
                Op::And | Op::Or if n.w == 1 => { let b = self.bool_(x); self.b2bv(b) }
                Op::Ite => { let (p, q, r) = (self.bool_(n.a), self.bits(n.b), self.bits(n.c)); (a.mk_ite)(c, p, q, r) }
                Op::Extract => { let p = self.bits(n.a); (a.mk_extract)(c, n.k as u32 + n.w - 1, n.k as u32, p) }
                Op::SExt => { let p = self.bits(n.a); (a.mk_sign_ext)(c, n.w - nd(n.a).w, p) }
                op => {
                    let f = match op {
                        Op::Add => a.mk_bvadd, Op::Sub => a.mk_bvsub, Op::Mul => a.mk_bvmul, Op::UDiv => a.mk_bvudiv, Op::URem => a.mk_bvurem,
                        Op::SDiv => a.mk_bvsdiv, Op::SRem => a.mk_bvsrem, Op::And => a.mk_bvand, Op::Or => a.mk_bvor, Op::Xor => a.mk_bvxor,
                        Op::Shl => a.mk_bvshl, Op::LShr => a.mk_bvlshr, Op::AShr => a.mk_bvashr, Op::Concat => a.mk_concat, _ => unreachable!(),
                    };
                    let (p, q) = (self.bits(n.a), self.bits(n.b));
                    f(c, p, q)
                }
            }
        };
        unsafe { (a.inc_ref)(c, r) };
        *Self::slot(&mut self.bv, x) = r;
        r
    }
    unsafe fn b2bv(&mut self, b: P) -> P {
        let (a, c) = (self.a, self.c);
        let s = (a.mk_bv_sort)(c, 1);
        (a.inc_ref)(c, s);
        let one = (a.mk_unsigned_int64)(c, 1, s);
        (a.inc_ref)(c, one);
        let zero = (a.mk_unsigned_int64)(c, 0, s);
        (a.inc_ref)(c, zero);
        // never released: one of each is enough for the whole run
        (a.mk_ite)(c, b, one, zero)
    }
    /// Is it impossible that the two byte sequences differ?
    pub fn check_equal(&mut self, x: &[X], y: &[X]) -> bool {
        let (a, c) = (self.a, self.c);
        let mut d: Vec<P> = vec![];
        for i in 0..x.len() {
            let (p, q) = (self.bits(x[i]), self.bits(y[i]));
            unsafe { let e = (a.mk_eq)(c, p, q); (a.inc_ref)(c, e); let n = (a.mk_not)(c, e); (a.inc_ref)(c, n); (a.dec_ref)(c, e); d.push(n); }
        }
        unsafe {
            let o = (a.mk_or)(c, d.len() as u32, d.as_ptr());
            (a.inc_ref)(c, o);
            for n in d { (a.dec_ref)(c, n); }
            (a.solver_push)(c, self.solver);
            (a.solver_assert)(c, self.solver, o);
            let r = (a.solver_check)(c, self.solver);
            (a.solver_pop)(c, self.solver, 1);
            (a.dec_ref)(c, o);
            r == -1
        }
    }
    /// Satisfiability of the conjunction; on sat the values of all variables in it.
    pub fn check(&mut self, cons: &[X]) -> Res {
        let (a, c) = (self.a, self.c);
        let mut vars: Vec<u32> = vec![];
        let asts: Vec<P> = cons.iter().map(|&x| { vars.extend_from_slice(&expr::support(x)); self.bool_(x) }).collect();
        vars.sort_unstable();
        vars.dedup();
        unsafe {
            (a.solver_push)(c, self.solver);
            for p in asts { (a.solver_assert)(c, self.solver, p); }
            let r = (a.solver_check)(c, self.solver);
            let res = if r == 1 {
                let m = (a.solver_get_model)(c, self.solver);
                (a.model_inc_ref)(c, m);
                let mut out = Vec::with_capacity(vars.len());
                for v in vars {
                    let p = self.bits(expr::var(v));
                    let mut o = std::ptr::null_mut();
                    let ok = (a.model_eval)(c, m, p, true, &mut o);
                    let mut k = 0u64;
                    if !ok || !(a.get_numeral_uint64)(c, o, &mut k) { eprintln!("ENGINE-ERROR z3 model"); std::process::exit(3); }
                    out.push((v, k as u8));
                }
                (a.model_dec_ref)(c, m);
                Res::Sat(out)
            } else if r == -1 { Res::Unsat } else { Res::Unknown };
            (a.solver_pop)(c, self.solver, 1);
            res
        }
    }
}
