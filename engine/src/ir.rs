//! Textual LLVM IR: types, lazy function parsing, constants, globals.
use crate::expr::{self, X};
use std::cell::{OnceCell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty { Void, Int(u32), Ptr, Float, Double, Struct(Vec<TyId>, bool), Array(u64, TyId), Vector(u64, TyId), Label, Meta }

#[derive(Clone, Debug)]
pub struct TyInfo { pub ty: Ty, pub size: u64, pub align: u64, pub bits: u32, pub offs: Vec<u64> }

#[derive(Default)]
pub struct TyTab { pub v: Vec<TyInfo>, m: HashMap<Ty, TyId> }
fn up(x: u64, a: u64) -> u64 { (x + a - 1) / a * a }
impl TyTab {
    pub fn get(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.m.get(&t) { return i; }
        let (size, align, bits, offs) = match &t {
            Ty::Void | Ty::Label | Ty::Meta => (0, 1, 0, vec![]),
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = b.next_power_of_two().min(16); (up(b, a), a, *w, vec![]) }
            Ty::Ptr => (8, 8, 64, vec![]),
            Ty::Float => (4, 4, 32, vec![]),
            Ty::Double => (8, 8, 64, vec![]),
            Ty::Struct(f, packed) => {
                let (mut o, mut al, mut offs) = (0, 1, vec![]);
                for &x in f { let i = &self.v[x as usize]; let a = if *packed { 1 } else { i.align }; o = up(o, a); offs.push(o); o += i.size; al = al.max(a); }
                (up(o, al), al, 0, offs)
            }
            Ty::Array(n, e) => { let i = &self.v[*e as usize]; (n * i.size, i.align, 0, vec![]) }
            Ty::Vector(n, e) => { let i = &self.v[*e as usize]; let bits = *n * i.bits as u64; let s = (bits + 7) / 8; (s, s.next_power_of_two(), bits as u32, vec![]) }
        };
        let id = self.v.len() as TyId;
        self.v.push(TyInfo { ty: t.clone(), size, align, bits, offs });
        self.m.insert(t, id);
        id
    }
}

#[derive(Clone, Debug)]
pub enum Val { C(u128), E(X), A(Rc<Vec<Val>>) }

#[derive(Clone, Debug)]
pub enum Opd { R(u32), K(Val) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp { Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, ZExt, SExt, Bit, PtrInt, UiToFp, SiToFp, FpToUi, FpToSi, FpExt, FpTrunc }

#[derive(Clone, Debug)]
pub enum Callee { F(u32), Ind(Opd), Asm(Rc<String>) }

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: BinOp, ty: TyId, a: Opd, b: Opd, d: u32 },
    ICmp { p: Pred, ty: TyId, a: Opd, b: Opd, d: u32 },
    FCmp { p: Rc<String>, ty: TyId, a: Opd, b: Opd, d: u32 },
    FNeg { ty: TyId, a: Opd, d: u32 },
    Cast { op: CastOp, from: TyId, to: TyId, a: Opd, d: u32 },
    Select { cty: TyId, ty: TyId, c: Opd, a: Opd, b: Opd, d: u32 },
    Load { ty: TyId, p: Opd, d: u32 },
    Store { ty: TyId, v: Opd, p: Opd },
    Gep { base: Opd, off: i64, terms: Vec<(Opd, u64, u32)>, d: u32 },
    Alloca { size: u64, n: Opd, d: u32 },
    Call { f: Callee, args: Vec<(TyId, Opd)>, ret: TyId, d: Option<u32>, normal: Option<u32> },
    ExtractV { a: Opd, idx: Vec<u32>, d: u32 },
    InsertV { ty: TyId, a: Opd, v: Opd, idx: Vec<u32>, d: u32 },
    ExtractE { a: Opd, i: Opd, d: u32 },
    InsertE { ty: TyId, a: Opd, v: Opd, i: Opd, d: u32 },
    Shuffle { a: Opd, b: Opd, m: Vec<i64>, n: usize, d: u32 },
    Rmw { op: Rc<String>, ty: TyId, p: Opd, v: Opd, d: u32 },
    CmpXchg { ty: TyId, p: Opd, c: Opd, n: Opd, d: u32 },
    Freeze { a: Opd, d: u32 },
    Nop,
    Br(u32),
    CondBr { c: Opd, t: u32, e: u32 },
    Switch { ty: TyId, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Unreachable,
    Bad(Rc<String>),
}
pub struct Phi { pub d: u32, pub inc: Vec<(u32, Opd)> }
pub struct Block { pub phis: Vec<Phi>, pub insts: Vec<I>, pub rpo: u32 }
pub struct Body { pub blocks: Vec<Block>, pub nregs: u32, pub params: Vec<(TyId, u32)>, pub ret: TyId, pub phiw: HashMap<u32, (u32, bool)> }
pub struct Func { pub name: String, pub text: Option<(usize, usize)>, pub body: OnceCell<Body>, pub native: OnceCell<u32>, pub calls: std::cell::Cell<u64> }
pub struct Global { pub name: String, pub size: u64, pub data: RefCell<Vec<u8>>, pub constant: bool, pub ext: bool }

pub struct Module {
    pub src: Vec<u8>,
    pub tys: RefCell<TyTab>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
}
pub const FN_BASE: u64 = 0x7f00_0000_0000_0000;
pub fn fn_addr(i: u32) -> u64 { FN_BASE | (i as u64) << 4 }
pub fn g_addr(i: u32) -> u64 { ((i as u64) + 1) << 32 }

struct P<'a> { m: &'a Module, s: &'a [u8], i: usize, end: usize, regs: HashMap<String, u32>, blocks: HashMap<String, u32>, nregs: u32 }

type R<T> = Result<T, String>;

fn is_name(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') }

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.end {
            match self.s[self.i] { b' ' | b'\t' | b'\n' | b'\r' => self.i += 1, b';' => { while self.i < self.end && self.s[self.i] != b'\n' { self.i += 1; } } _ => break }
        }
    }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.end { self.s[self.i] } else { 0 } }
    fn eat(&mut self, t: &str) -> bool {
        let save = self.i;
        self.ws();
        let b = t.as_bytes();
        if self.s[self.i..self.end].starts_with(b) {
            let last = b[b.len() - 1];
            if (last.is_ascii_alphanumeric() || last == b'_') && self.i + b.len() < self.end && is_name(self.s[self.i + b.len()]) { self.i = save; return false; }
            self.i += b.len();
            true
        } else { self.i = save; false }
    }
    fn need(&mut self, t: &str) -> R<()> { if self.eat(t) { Ok(()) } else { Err(format!("expected {:?} at {:?}", t, self.ctx())) } }
    fn ctx(&self) -> String { String::from_utf8_lossy(&self.s[self.i..(self.i + 60).min(self.s.len())]).to_string() }
    fn word(&mut self) -> String {
        self.ws();
        let st = self.i;
        while self.i < self.end && is_name(self.s[self.i]) { self.i += 1; }
        String::from_utf8_lossy(&self.s[st..self.i]).to_string()
    }
    fn peek_word(&mut self) -> String { let s = self.i; let w = self.word(); self.i = s; w }
    fn int(&mut self) -> R<i128> {
        self.ws();
        let st = self.i;
        if self.s[self.i] == b'-' { self.i += 1; }
        while self.i < self.end && self.s[self.i].is_ascii_digit() { self.i += 1; }
        let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        t.parse::<i128>().or_else(|_| t.parse::<u128>().map(|x| x as i128)).map_err(|_| format!("int {:?} at {:?}", t, self.ctx()))
    }
    fn line_end(&mut self) { while self.i < self.end && self.s[self.i] != b'\n' { self.i += 1; } }
    fn name_after_sigil(&mut self) -> String {
        // self.i is just past % or @
        if self.s[self.i] == b'"' {
            let (b, _) = self.quoted();
            return String::from_utf8_lossy(&b).to_string();
        }
        let st = self.i;
        while self.i < self.end && is_name(self.s[self.i]) { self.i += 1; }
        String::from_utf8_lossy(&self.s[st..self.i]).to_string()
    }
    fn quoted(&mut self) -> (Vec<u8>, ()) {
        // at opening quote
        self.i += 1;
        let mut o = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                let h = |c: u8| (c as char).to_digit(16);
                if let (Some(a), Some(b)) = (h(self.s[self.i + 1]), h(self.s[self.i + 2])) { o.push((a * 16 + b) as u8); self.i += 3; continue; }
                if self.s[self.i + 1] == b'\\' { o.push(b'\\'); self.i += 2; continue; }
            }
            o.push(self.s[self.i]);
            self.i += 1;
        }
        self.i += 1;
        (o, ())
    }
    fn t(&self, t: Ty) -> TyId { self.m.tys.borrow_mut().get(t) }
    fn ty(&mut self) -> R<TyId> {
        match self.peek() {
            b'i' if self.s[self.i + 1].is_ascii_digit() => { self.i += 1; let n = self.int()?; Ok(self.t(Ty::Int(n as u32))) }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' { self.i += 1; let f = self.tylist(b'}')?; self.need(">")?; Ok(self.t(Ty::Struct(f, true))) }
                else { let n = self.int()?; self.need("x")?; let e = self.ty()?; self.need(">")?; Ok(self.t(Ty::Vector(n as u64, e))) }
            }
            b'{' => { self.i += 1; let f = self.tylist(b'}')?; Ok(self.t(Ty::Struct(f, false))) }
            b'[' => { self.i += 1; let n = self.int()?; self.need("x")?; let e = self.ty()?; self.need("]")?; Ok(self.t(Ty::Array(n as u64, e))) }
            _ => {
                let w = self.word();
                match w.as_str() {
                    "ptr" => Ok(self.t(Ty::Ptr)),
                    "void" => Ok(self.t(Ty::Void)),
                    "double" => Ok(self.t(Ty::Double)),
                    "float" => Ok(self.t(Ty::Float)),
                    "label" => Ok(self.t(Ty::Label)),
                    "metadata" => Ok(self.t(Ty::Meta)),
                    _ => Err(format!("type {:?} at {:?}", w, self.ctx())),
                }
            }
        }
    }
    fn tylist(&mut self, close: u8) -> R<Vec<TyId>> {
        let mut v = vec![];
        loop {
            if self.peek() == close { self.i += 1; return Ok(v); }
            v.push(self.ty()?);
            self.eat(",");
        }
    }
    fn parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { self.i += 1; return; } }
                b'"' => { self.quoted(); continue; }
                _ => {}
            }
            self.i += 1;
        }
    }
    /// skip parameter / return attributes
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' { self.quoted(); if self.peek() == b'=' { self.i += 1; self.peek(); self.quoted(); } continue; }
            if !c.is_ascii_alphabetic() { return; }
            let save = self.i;
            let w = self.word();
            match w.as_str() {
                "noundef" | "nonnull" | "noalias" | "nofree" | "readonly" | "writeonly" | "readnone" | "nocapture" | "zeroext" | "signext" | "immarg" | "returned" | "inreg" | "nest" | "allocptr" | "writable" | "dead_on_unwind" | "dead_on_return" | "noext" | "swiftself" | "nosync" => {}
                "align" => { if self.peek() == b'(' { self.parens(); } else { let _ = self.int(); } }
                "dereferenceable" | "dereferenceable_or_null" | "captures" | "range" | "initializes" | "sret" | "byval" | "byref" | "nofpclass" | "elementtype" | "alignstack" | "addrspace" | "inalloca" | "preallocated" => { if self.peek() == b'(' { self.parens(); } }
                _ => { self.i = save; return; }
            }
        }
    }
    fn reg(&mut self, n: String) -> u32 {
        if let Some(&r) = self.regs.get(&n) { return r; }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n, r);
        r
    }
    fn def(&mut self) -> R<u32> { self.need("%")?; let n = self.name_after_sigil(); let r = self.reg(n); self.need("=")?; Ok(r) }
    fn zero(&self, ty: TyId) -> Val { zero_val(&self.m.tys.borrow(), ty) }
    fn intval(&self, ty: TyId, k: i128) -> Val {
        let t = self.m.tys.borrow();
        let w = t.v[ty as usize].bits;
        if w > 128 { if k < 0 { let hi = expr::cst(!0, 128.min(w - 128)); let hi = if w - 128 > 128 { expr::mk_sext(hi, w - 128) } else { hi }; Val::E(expr::mk_concat(hi, expr::cst(k as u128, 128))) } else { Val::C(k as u128) } }
        else { Val::C(k as u128 & expr::mask(w)) }
    }
    fn op(&mut self, ty: TyId) -> R<Opd> {
        if self.peek() == b'%' { self.i += 1; let n = self.name_after_sigil(); return Ok(Opd::R(self.reg(n))); }
        Ok(Opd::K(self.konst(ty)?))
    }
    fn top(&mut self) -> R<(TyId, Opd)> { let t = self.ty()?; self.attrs(); Ok((t, self.op(t)?)) }
    fn tconst(&mut self) -> R<(TyId, Val)> { let t = self.ty()?; Ok((t, self.konst(t)?)) }
    fn konst(&mut self, ty: TyId) -> R<Val> {
        let c = self.peek();
        match c {
            b'@' => {
                self.i += 1;
                let n = self.name_after_sigil();
                if let Some(&f) = self.m.fidx.get(&n) { return Ok(Val::C(fn_addr(f) as u128)); }
                if let Some(&g) = self.m.gidx.get(&n) { return Ok(Val::C(g_addr(g) as u128)); }
                Err(format!("unknown global @{}", n))
            }
            b'-' | b'0'..=b'9' => {
                let info = self.m.tys.borrow().v[ty as usize].ty.clone();
                match info {
                    Ty::Double | Ty::Float => {
                        let st = self.i;
                        while self.i < self.end && (is_name(self.s[self.i]) || self.s[self.i] == b'+') { self.i += 1; }
                        let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                        if let Some(h) = t.strip_prefix("0x") {
                            let b = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                            return Ok(Val::C(if info == Ty::Float { (f64::from_bits(b) as f32).to_bits() as u128 } else { b as u128 }));
                        }
                        let f: f64 = t.parse().map_err(|_| format!("float {}", t))?;
                        Ok(Val::C(if info == Ty::Float { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 }))
                    }
                    _ => { let k = self.int()?; Ok(self.intval(ty, k)) }
                }
            }
            b'+' => { self.i += 1; let w = self.word(); if w == "inf" { Ok(Val::C(f64::INFINITY.to_bits() as u128)) } else if w == "nan" || w == "qnan" { Ok(Val::C(f64::NAN.to_bits() as u128)) } else { Err("const +".into()) } }
            b'<' | b'{' | b'[' => {
                self.i += 1;
                let mut close = match c { b'<' => b'>', b'{' => b'}', _ => b']' };
                let packed = c == b'<' && self.peek() == b'{';
                if packed { self.i += 1; close = b'}'; }
                let mut v = vec![];
                loop {
                    if self.peek() == close { self.i += 1; break; }
                    v.push(self.tconst()?.1);
                    self.eat(",");
                }
                if packed { self.need(">")?; }
                Ok(Val::A(Rc::new(v)))
            }
            b'c' if self.s[self.i + 1] == b'"' => { self.i += 1; let (b, _) = self.quoted(); Ok(Val::A(Rc::new(b.into_iter().map(|x| Val::C(x as u128)).collect()))) }
            _ => {
                let w = self.word();
                match w.as_str() {
                    "true" => Ok(Val::C(1)),
                    "false" | "null" => Ok(Val::C(0)),
                    "zeroinitializer" | "undef" | "poison" | "none" => Ok(self.zero(ty)),
                    "splat" => { self.need("(")?; let (_, v) = self.tconst()?; self.need(")")?; let n = match self.m.tys.borrow().v[ty as usize].ty { Ty::Vector(n, _) => n, _ => return Err("splat".into()) }; Ok(Val::A(Rc::new(vec![v; n as usize]))) }
                    "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "addrspacecast" => { self.need("(")?; let (_, v) = self.tconst()?; self.need("to")?; self.ty()?; self.need(")")?; Ok(v) }
                    "trunc" => { self.need("(")?; let (_, v) = self.tconst()?; self.need("to")?; let t = self.ty()?; self.need(")")?; match v { Val::C(k) => Ok(self.intval(t, k as i128)), _ => Err("const trunc".into()) } }
                    "sub" | "add" | "xor" | "and" | "or" => {
                        while !self.eat("(") { let x = self.word(); if x.is_empty() { return Err("constexpr".into()); } }
                        let (t, a) = self.tconst()?; self.need(",")?; let (_, b) = self.tconst()?; self.need(")")?;
                        match (a, b) { (Val::C(a), Val::C(b)) => Ok(self.intval(t, match w.as_str() { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), "xor" => a ^ b, "and" => a & b, _ => a | b } as i128)), _ => Err("constexpr".into()) }
                    }
                    "getelementptr" => {
                        while self.peek() != b'(' { self.word(); if self.peek() == b'(' { // inrange(...) or the operand list
                                let save = self.i; self.i += 1; let c2 = self.peek(); if c2 == b'-' || c2.is_ascii_digit() { self.i = save; self.parens(); } else { self.i = save; } } }
                        self.need("(")?;
                        let (base, off, terms) = self.gep_body()?;
                        self.need(")")?;
                        if !terms.is_empty() { return Err("const gep".into()); }
                        match base { Opd::K(Val::C(k)) => Ok(Val::C((k as u64).wrapping_add(off as u64) as u128)), _ => Err("const gep base".into()) }
                    }
                    _ => Err(format!("const {:?} at {:?}", w, self.ctx())),
                }
            }
        }
    }
    fn gep_body(&mut self) -> R<(Opd, i64, Vec<(Opd, u64, u32)>)> {
        let mut cur = self.ty()?;
        self.need(",")?;
        let (_, base) = self.top()?;
        let mut off: i64 = 0;
        let mut terms = vec![];
        let mut first = true;
        loop {
            let save = self.i;
            if !self.eat(",") { break; }
            if self.peek() == b'!' { self.i = save; break; }
            let (it, idx) = self.top()?;
            let w = self.m.tys.borrow().v[it as usize].bits;
            let stride;
            if first { stride = self.m.tys.borrow().v[cur as usize].size; first = false; }
            else {
                let info = self.m.tys.borrow().v[cur as usize].clone();
                match info.ty {
                    Ty::Struct(f, _) => { let k = match idx { Opd::K(Val::C(k)) => k as usize, _ => return Err("gep struct idx".into()) }; off += info.offs[k] as i64; cur = f[k]; continue; }
                    Ty::Array(_, e) | Ty::Vector(_, e) => { cur = e; stride = self.m.tys.borrow().v[e as usize].size; }
                    _ => return Err("gep type".into()),
                }
            }
            match idx {
                Opd::K(Val::C(k)) => off = off.wrapping_add((expr::sx(k, w) as i64).wrapping_mul(stride as i64)),
                o => terms.push((o, stride, w)),
            }
        }
        Ok((base, off, terms))
    }
    fn label(&mut self) -> R<u32> {
        self.need("label")?;
        self.need("%")?;
        let n = self.name_after_sigil();
        self.blocks.get(&n).copied().ok_or_else(|| format!("label {}", n))
    }
    fn skip_words(&mut self, ws: &[&str]) { loop { let w = self.peek_word(); if ws.contains(&w.as_str()) { self.word(); if self.peek() == b'(' { self.parens(); } } else { return; } } }

    fn inst(&mut self) -> R<I> {
        let mut d = 0;
        let has = self.peek() == b'%';
        if has { d = self.def()?; }
        let w = self.word();
        let r = self.inst2(&w, d, has)?;
        Ok(r)
    }
    fn inst2(&mut self, w: &str, d: u32, has: bool) -> R<I> {
        const FL: &[&str] = &["nuw", "nsw", "exact", "disjoint", "inbounds", "nusw", "nneg", "samesign", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"];
        Ok(match w {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.skip_words(FL);
                let (ty, a) = self.top()?;
                self.need(",")?;
                let b = self.op(ty)?;
                let op = match w { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "urem" => BinOp::URem, "sdiv" => BinOp::SDiv, "srem" => BinOp::SRem, "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, "fadd" => BinOp::FAdd, "fsub" => BinOp::FSub, "fmul" => BinOp::FMul, "fdiv" => BinOp::FDiv, _ => BinOp::FRem };
                I::Bin { op, ty, a, b, d }
            }
            "fneg" => { self.skip_words(FL); let (ty, a) = self.top()?; I::FNeg { ty, a, d } }
            "icmp" => {
                self.skip_words(FL);
                let p = match self.word().as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => return Err(format!("icmp {}", x)) };
                let (ty, a) = self.top()?;
                self.need(",")?;
                let b = self.op(ty)?;
                I::ICmp { p, ty, a, b, d }
            }
            "fcmp" => { self.skip_words(FL); let p = self.word(); let (ty, a) = self.top()?; self.need(",")?; let b = self.op(ty)?; I::FCmp { p: Rc::new(p), ty, a, b, d } }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                self.skip_words(FL);
                let (from, a) = self.top()?;
                self.need("to")?;
                let to = self.ty()?;
                let op = match w { "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt, "bitcast" => CastOp::Bit, "uitofp" => CastOp::UiToFp, "sitofp" => CastOp::SiToFp, "fptoui" => CastOp::FpToUi, "fptosi" => CastOp::FpToSi, "fpext" => CastOp::FpExt, "fptrunc" => CastOp::FpTrunc, _ => CastOp::PtrInt };
                I::Cast { op, from, to, a, d }
            }
            "select" => { self.skip_words(FL); let (cty, c) = self.top()?; self.need(",")?; let (ty, a) = self.top()?; self.need(",")?; let (_, b) = self.top()?; I::Select { cty, ty, c, a, b, d } }
            "freeze" => { let (_, a) = self.top()?; I::Freeze { a, d } }
            "load" => { self.skip_words(&["atomic", "volatile"]); let ty = self.ty()?; self.need(",")?; let (_, p) = self.top()?; I::Load { ty, p, d } }
            "store" => { self.skip_words(&["atomic", "volatile"]); let (ty, v) = self.top()?; self.need(",")?; let (_, p) = self.top()?; I::Store { ty, v, p } }
            "getelementptr" => { self.skip_words(FL); let (base, off, terms) = self.gep_body()?; I::Gep { base, off, terms, d } }
            "alloca" => {
                self.skip_words(&["inalloca"]);
                let ty = self.ty()?;
                let size = self.m.tys.borrow().v[ty as usize].size;
                let mut n = Opd::K(Val::C(1));
                if self.eat(",") { if self.peek() == b'i' && self.s[self.i + 1].is_ascii_digit() { n = self.top()?.1; } }
                I::Alloca { size, n, d }
            }
            "extractvalue" => { let (_, a) = self.top()?; let mut idx = vec![]; loop { let s = self.i; if !self.eat(",") { break; } if self.peek() == b'!' { self.i = s; break; } idx.push(self.int()? as u32); } I::ExtractV { a, idx, d } }
            "insertvalue" => { let (ty, a) = self.top()?; self.need(",")?; let (_, v) = self.top()?; let mut idx = vec![]; loop { let s = self.i; if !self.eat(",") { break; } if self.peek() == b'!' { self.i = s; break; } idx.push(self.int()? as u32); } I::InsertV { ty, a, v, idx, d } }
            "extractelement" => { let (_, a) = self.top()?; self.need(",")?; let (_, i) = self.top()?; I::ExtractE { a, i, d } }
            "insertelement" => { let (ty, a) = self.top()?; self.need(",")?; let (_, v) = self.top()?; self.need(",")?; let (_, i) = self.top()?; I::InsertE { ty, a, v, i, d } }
            "shufflevector" => {
                let (ty, a) = self.top()?; self.need(",")?; let (_, b) = self.top()?; self.need(",")?;
                let n = match self.m.tys.borrow().v[ty as usize].ty { Ty::Vector(n, _) => n as usize, _ => return Err("shuffle".into()) };
                let (_, m) = self.tconst()?;
                let m = match m { Val::A(v) => v.iter().map(|x| match x { Val::C(k) => *k as i64, _ => 0 }).collect(), _ => return Err("shuffle mask".into()) };
                I::Shuffle { a, b, m, n, d }
            }
            "atomicrmw" => { self.skip_words(&["volatile"]); let op = self.word(); let (_, p) = self.top()?; self.need(",")?; let (ty, v) = self.top()?; I::Rmw { op: Rc::new(op), ty, p, v, d } }
            "cmpxchg" => { self.skip_words(&["weak", "volatile"]); let (_, p) = self.top()?; self.need(",")?; let (ty, c) = self.top()?; self.need(",")?; let (_, n) = self.top()?; I::CmpXchg { ty, p, c, n, d } }
            "fence" => I::Nop,
            "br" => {
                if self.peek_word() == "label" { I::Br(self.label()?) }
                else { let (_, c) = self.top()?; self.need(",")?; let t = self.label()?; self.need(",")?; let e = self.label()?; I::CondBr { c, t, e } }
            }
            "switch" => {
                let (ty, v) = self.top()?; self.need(",")?; let def = self.label()?; self.need("[")?;
                let mut cases = vec![];
                while !self.eat("]") { let (_, k) = self.tconst()?; self.need(",")?; let l = self.label()?; match k { Val::C(k) => cases.push((k, l)), _ => return Err("switch".into()) } }
                I::Switch { ty, v, def, cases }
            }
            "ret" => { let t = self.ty()?; if self.m.tys.borrow().v[t as usize].ty == Ty::Void { I::Ret(None) } else { I::Ret(Some(self.op(t)?)) } }
            "unreachable" => I::Unreachable,
            "resume" => I::Unreachable,
            "landingpad" => { let _ = self.ty()?; I::Bad(Rc::new("landingpad".into())) }
            "cleanup" | "catch" | "filter" => I::Nop,
            "tail" | "musttail" | "notail" => { self.word(); self.call(d, has, false)? }
            "call" => self.call(d, has, false)?,
            "invoke" => self.call(d, has, true)?,
            _ => return Err(format!("instruction {:?} {:?}", w, self.ctx())),
        })
    }
    fn call(&mut self, d: u32, has: bool, invoke: bool) -> R<I> {
        self.skip_words(&["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
        self.skip_words(&["fastcc", "coldcc", "ccc", "tailcc", "preserve_mostcc", "preserve_allcc", "preserve_nonecc", "cc"]);
        self.attrs();
        let ret = self.ty()?;
        if self.peek() == b'(' { self.parens(); }
        self.attrs();
        let c = self.peek();
        let f = if c == b'@' {
            self.i += 1;
            let n = self.name_after_sigil();
            match self.m.fidx.get(&n) { Some(&f) => Callee::F(f), None => return Err(format!("callee {}", n)) }
        } else if c == b'%' { self.i += 1; let n = self.name_after_sigil(); Callee::Ind(Opd::R(self.reg(n))) }
        else {
            let w = self.peek_word();
            if w == "asm" {
                self.word();
                self.skip_words(&["sideeffect", "alignstack", "inteldialect", "unwind"]);
                self.peek();
                let (t, _) = self.quoted();
                self.need(",")?;
                self.peek();
                self.quoted();
                Callee::Asm(Rc::new(String::from_utf8_lossy(&t).to_string()))
            } else { let t = self.t(Ty::Ptr); Callee::Ind(Opd::K(self.konst(t)?)) }
        };
        self.need("(")?;
        let mut args = vec![];
        loop {
            if self.eat(")") { break; }
            let t = self.ty()?;
            self.attrs();
            if self.m.tys.borrow().v[t as usize].ty == Ty::Meta {
                // skip metadata operand
                let mut dpt = 0;
                loop { match self.s[self.i] { b'(' => dpt += 1, b')' if dpt == 0 => break, b')' => dpt -= 1, b',' if dpt == 0 => break, _ => {} } self.i += 1; }
                args.push((t, Opd::K(Val::C(0))));
            } else { let o = self.op(t)?; args.push((t, o)); }
            self.eat(",");
        }
        let mut normal = None;
        if invoke {
            // attributes, then "to label %x unwind label %y"
            loop { if self.eat("to") { break; } self.ws(); if self.s[self.i] == b'[' { while self.s[self.i] != b']' { self.i += 1; } } self.i += 1; while self.i < self.end && !self.s[self.i].is_ascii_whitespace() { self.i += 1; } }
            normal = Some(self.label()?);
            self.need("unwind")?;
            let _ = self.label()?;
        }
        Ok(I::Call { f, args, ret, d: if has { Some(d) } else { None }, normal })
    }
}

pub fn zero_val(t: &TyTab, ty: TyId) -> Val {
    match &t.v[ty as usize].ty {
        Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|&x| zero_val(t, x)).collect())),
        Ty::Array(n, e) | Ty::Vector(n, e) => Val::A(Rc::new(vec![zero_val(t, *e); *n as usize])),
        _ => Val::C(0),
    }
}

pub fn write_const(t: &TyTab, ty: TyId, v: &Val, out: &mut [u8]) -> R<()> {
    let info = &t.v[ty as usize];
    match (&info.ty, v) {
        (Ty::Struct(f, _), Val::A(vs)) => { for (i, &x) in f.iter().enumerate() { let o = info.offs[i] as usize; let s = t.v[x as usize].size as usize; write_const(t, x, &vs[i], &mut out[o..o + s])?; } }
        (Ty::Array(n, e), Val::A(vs)) | (Ty::Vector(n, e), Val::A(vs)) => { let s = t.v[*e as usize].size as usize; for i in 0..*n as usize { write_const(t, *e, &vs[i], &mut out[i * s..(i + 1) * s])?; } }
        (_, Val::C(k)) => { let n = (info.bits as usize + 7) / 8; out[..n.min(16)].copy_from_slice(&k.to_le_bytes()[..n.min(16)]); }
        _ => return Err("global initialiser".into()),
    }
    Ok(())
}

impl Module {
    pub fn load(src: Vec<u8>) -> R<Module> {
        let mut m = Module { src, tys: RefCell::new(TyTab::default()), funcs: vec![], fidx: HashMap::new(), globals: vec![], gidx: HashMap::new() };
        let src = std::mem::take(&mut m.src);
        // pass 1: names
        let mut ginit: Vec<(u32, usize, usize)> = vec![];
        let mut i = 0;
        let n = src.len();
        let mut cur: Option<usize> = None;
        while i < n {
            let e = src[i..].iter().position(|&c| c == b'\n').map(|p| i + p).unwrap_or(n);
            let l = &src[i..e];
            if let Some(f) = cur {
                if l == b"}" { m.funcs[f].text.as_mut().unwrap().1 = i; cur = None; }
            } else if l.starts_with(b"@") {
                let (name, after) = sym_name(&src, i + 1);
                let g = m.globals.len() as u32;
                m.globals.push(Global { name: name.clone(), size: 0, data: RefCell::new(vec![]), constant: false, ext: false });
                m.gidx.insert(name, g);
                ginit.push((g, after, e));
            } else if l.starts_with(b"define ") || l.starts_with(b"declare ") {
                let at = l.iter().position(|&c| c == b'@').unwrap();
                let (name, _) = sym_name(&src, i + at + 1);
                let f = m.funcs.len();
                let is_def = l.starts_with(b"define ");
                m.funcs.push(Func { name: name.clone(), text: if is_def { Some((i, 0)) } else { None }, body: OnceCell::new(), native: OnceCell::new(), calls: std::cell::Cell::new(0) });
                m.fidx.insert(name, f as u32);
                if is_def { cur = Some(f); }
            }
            i = e + 1;
        }
        m.src = src;
        let mut upd = vec![];
        for (g, a, e) in ginit {
            let mut p = P { m: &m, s: &m.src, i: a, end: e, regs: HashMap::new(), blocks: HashMap::new(), nregs: 0 };
            p.need("=")?;
            let mut ext = false;
            let mut constant = false;
            loop {
                let w = p.peek_word();
                match w.as_str() {
                    "global" => { p.word(); break; }
                    "constant" => { p.word(); constant = true; break; }
                    "external" | "extern_weak" => { p.word(); ext = true; }
                    "alias" | "ifunc" => return Err("alias".into()),
                    "" => return Err(format!("global {}", p.ctx())),
                    _ => { p.word(); if p.peek() == b'(' { p.parens(); } }
                }
            }
            let ty = p.ty()?;
            let size = m.tys.borrow().v[ty as usize].size;
            let mut data = vec![0u8; size as usize];
            if !ext {
                let v = p.konst(ty).map_err(|e| format!("{} in @{}", e, m.globals[g as usize].name))?;
                write_const(&m.tys.borrow(), ty, &v, &mut data)?;
            }
            upd.push((g, size, data, constant, ext));
        }
        for (g, size, data, constant, ext) in upd { let x = &mut m.globals[g as usize]; x.size = size; x.data = RefCell::new(data); x.constant = constant; x.ext = ext; }
        Ok(m)
    }

    pub fn body(&self, f: u32) -> &Body {
        self.funcs[f as usize].body.get_or_init(|| match self.parse_fn(f) {
            Ok(b) => b,
            Err(e) => { eprintln!("ENGINE-ERROR parse {}: {}", self.funcs[f as usize].name, e); std::process::exit(3) }
        })
    }

    fn parse_fn(&self, f: u32) -> R<Body> {
        let (st, en) = self.funcs[f as usize].text.ok_or("no body")?;
        let mut p = P { m: self, s: &self.src, i: st, end: en, regs: HashMap::new(), blocks: HashMap::new(), nregs: 0 };
        p.need("define")?;
        // linkage etc. up to the return type
        loop {
            p.attrs();
            let w = p.peek_word();
            match w.as_str() {
                "internal" | "private" | "hidden" | "protected" | "default" | "dso_local" | "fastcc" | "coldcc" | "unnamed_addr" | "local_unnamed_addr" | "linkonce_odr" | "weak_odr" | "weak" | "available_externally" | "linkonce" | "preserve_mostcc" => { p.word(); }
                _ => break,
            }
        }
        let ret = p.ty()?;
        p.need("@")?;
        let _ = p.name_after_sigil();
        p.need("(")?;
        let mut params = vec![];
        let mut unnamed = 0;
        while !p.eat(")") {
            if p.eat("...") { continue; }
            let t = p.ty()?;
            p.attrs();
            p.need("%")?;
            let n = p.name_after_sigil();
            if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; }
            let r = p.reg(n);
            params.push((t, r));
            p.eat(",");
        }
        // to the opening brace at the end of the header line
        p.line_end();
        let body_start = p.i;
        // labels
        let mut order: Vec<(String, usize, usize)> = vec![];
        let mut i = body_start + 1;
        let mut first = true;
        while i < en {
            let e = self.src[i..en].iter().position(|&c| c == b'\n').map(|x| i + x).unwrap_or(en);
            let l = &self.src[i..e];
            let is_label = !l.is_empty() && l[0] != b' ' && l[0] != b';' && l[0] != b'\t';
            if is_label {
                let (name, after) = if l[0] == b'"' { sym_name(&self.src, i) } else { let c = l.iter().position(|&c| c == b':').ok_or("label")?; (String::from_utf8_lossy(&l[..c]).to_string(), i + c) };
                if let Some(x) = order.last_mut() { x.2 = i; }
                let _ = after;
                order.push((name, e, en));
                first = false;
            } else if first && !l.is_empty() {
                order.push((unnamed.to_string(), i, en));
                first = false;
            }
            i = e + 1;
        }
        for (k, (n, _, _)) in order.iter().enumerate() { p.blocks.insert(n.clone(), k as u32); }
        let mut blocks = vec![];
        let mut phiw = HashMap::new();
        for (_, s, e) in &order {
            p.i = *s;
            p.end = *e;
            let mut phis = vec![];
            let mut insts = vec![];
            loop {
                if p.peek() == 0 { break; }
                // debug records
                if p.s[p.i] == b'#' { p.line_end(); continue; }
                let save = p.i;
                // phi?
                if p.s[p.i] == b'%' {
                    let d = p.def()?;
                    if p.peek_word() == "phi" {
                        p.word();
                        p.skip_words(&["fast", "nnan", "ninf", "nsz", "contract"]);
                        let t = p.ty()?;
                        let mut inc = vec![];
                        loop {
                            p.need("[")?;
                            let o = p.op(t)?;
                            p.need(",")?;
                            p.need("%")?;
                            let n = p.name_after_sigil();
                            let b = *p.blocks.get(&n).ok_or("phi block")?;
                            p.need("]")?;
                            inc.push((b, o));
                            let s = p.i;
                            if !p.eat(",") { break; }
                            if p.peek() != b'[' { p.i = s; break; }
                        }
                        phis.push(Phi { d, inc });
                        { let tt = self.tys.borrow(); let i = &tt.v[t as usize]; let sc = matches!(i.ty, Ty::Int(_) | Ty::Ptr); phiw.insert(d, (if sc { i.bits } else { 0 }, i.ty == Ty::Ptr)); }
                        p.i = save;
                        p.line_end();
                        continue;
                    }
                    p.i = save;
                }
                let ins = match p.inst() { Ok(x) => x, Err(e) => I::Bad(Rc::new(e)) };
                // continue after the line(s) of this instruction, wherever the parser stopped
                p.i = save;
                p.line_end();
                if let I::Switch { .. } = ins { while p.i < p.end && p.s[p.i] != b']' { p.i += 1; } p.line_end(); }
                let term = matches!(ins, I::Br(_) | I::CondBr { .. } | I::Switch { .. } | I::Ret(_) | I::Unreachable | I::Call { normal: Some(_), .. });
                if !matches!(ins, I::Nop) { insts.push(ins); }
                if term { break; }
            }
            blocks.push(Block { phis, insts, rpo: 0 });
        }
        let nregs = p.nregs;
        let mut body = Body { blocks, nregs, params, ret, phiw };
        // reverse post order
        let n = body.blocks.len();
        let mut seen = vec![false; n];
        let mut post = vec![];
        let mut stack: Vec<(u32, usize)> = vec![(0, 0)];
        if n > 0 { seen[0] = true; }
        while let Some((b, k)) = stack.pop() {
            let s = succs(&body.blocks[b as usize]);
            if k < s.len() { stack.push((b, k + 1)); if !seen[s[k] as usize] { seen[s[k] as usize] = true; stack.push((s[k], 0)); } }
            else { post.push(b); }
        }
        for (k, &b) in post.iter().rev().enumerate() { body.blocks[b as usize].rpo = k as u32; }
        Ok(body)
    }
}
pub fn succs(b: &Block) -> Vec<u32> {
    match b.insts.last() {
        Some(I::Br(t)) => vec![*t],
        Some(I::CondBr { t, e, .. }) => vec![*t, *e],
        Some(I::Switch { def, cases, .. }) => { let mut v = vec![*def]; v.extend(cases.iter().map(|c| c.1)); v }
        Some(I::Call { normal: Some(t), .. }) => vec![*t],
        _ => vec![],
    }
}
fn sym_name(s: &[u8], i: usize) -> (String, usize) {
    if s[i] == b'"' {
        let mut j = i + 1;
        while s[j] != b'"' { j += 1; }
        return (String::from_utf8_lossy(&s[i + 1..j]).to_string(), j + 1);
    }
    let mut j = i;
    while is_name(s[j]) { j += 1; }
    (String::from_utf8_lossy(&s[i..j]).to_string(), j)
}
