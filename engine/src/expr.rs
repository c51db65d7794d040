//! Hash-consed bit-vector terms with eager simplification.
//! Every symbolic variable is one byte. Terms wider than 128 bits only ever
//! appear as Concat / Extract / Ite and are split before anything else is done.
#![allow(static_mut_refs)]
use std::collections::HashMap;
use std::rc::Rc;

pub type X = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Slt, Ite, Concat, Extract, SExt, Not,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u32, pub a: X, pub b: X, pub c: X, pub k: u128 }

pub struct Ctx {
    pub nodes: Vec<Node>,
    tab: HashMap<Node, X>,
    supp: Vec<Option<Rc<Vec<u32>>>>,
    tt: HashMap<X, [u64; 4]>,
    memo: Vec<(u32, u128)>,
    gen: u32,
    pub nvars: u32,
}

static mut CTX: Option<Ctx> = None;
pub fn cx() -> &'static mut Ctx {
    unsafe {
        if CTX.is_none() {
            let mut c = Ctx { nodes: vec![], tab: HashMap::new(), supp: vec![], tt: HashMap::new(), memo: vec![], gen: 0, nvars: 0 };
            // X=0 is reserved ("no expression")
            c.nodes.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0 });
            c.supp.push(None);
            CTX = Some(c);
        }
        CTX.as_mut().unwrap()
    }
}
#[inline]
pub fn nd(x: X) -> Node { unsafe { *CTX.as_ref().unwrap_unchecked().nodes.get_unchecked(x as usize) } }
#[inline]
pub fn width(x: X) -> u32 { nd(x).w }

fn intern(n: Node) -> X {
    let c = cx();
    if let Some(&x) = c.tab.get(&n) { return x; }
    let x = c.nodes.len() as X;
    c.nodes.push(n);
    c.tab.insert(n, x);
    c.supp.push(None);
    x
}
#[inline]
pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

fn mk(op: Op, w: u32, a: X, b: X, c: X, k: u128) -> X { intern(Node { op, w, a, b, c, k }) }
pub fn cst(k: u128, w: u32) -> X {
    if w > 128 {
        return mk_concat(cst(0, w - 128), cst(k, 128));
    }
    mk(Op::Const, w, 0, 0, 0, k & mask(w))
}
pub fn fresh() -> X {
    let c = cx();
    let v = c.nvars;
    c.nvars += 1;
    mk(Op::Var, 8, 0, 0, 0, v as u128)
}
pub fn var(v: u32) -> X { mk(Op::Var, 8, 0, 0, 0, v as u128) }
#[inline]
pub fn konst(x: X) -> Option<u128> { let n = nd(x); if n.op == Op::Const { Some(n.k) } else { None } }
pub fn tru() -> X { cst(1, 1) }
pub fn fls() -> X { cst(0, 1) }
fn is_k(x: X, k: u128) -> bool { konst(x) == Some(k) }
fn is_ones(x: X) -> bool { let n = nd(x); n.op == Op::Const && n.k == mask(n.w) }

pub fn mk_not(a: X) -> X {
    let n = nd(a);
    debug_assert!(n.w == 1);
    match n.op {
        Op::Const => cst(1 - n.k, 1),
        Op::Not => n.a,
        _ => mk(Op::Not, 1, a, 0, 0, 0),
    }
}

pub fn mk_concat(a: X, b: X) -> X {
    let na = nd(a);
    let nb = nd(b);
    let w = na.w + nb.w;
    if na.op == Op::Concat { return mk_concat(na.a, mk_concat(na.b, b)); }
    // a is atomic
    if na.op == Op::Const && nb.op == Op::Const && w <= 128 {
        return cst((na.k << nb.w) | nb.k, w);
    }
    if na.op == Op::Const && nb.op == Op::Concat {
        let h = nd(nb.a);
        if h.op == Op::Const && na.w + h.w <= 128 {
            return mk_concat(cst((na.k << h.w) | h.k, na.w + h.w), nb.b);
        }
    }
    // adjacent extracts
    let fuse = |x: X, y: X| -> Option<X> {
        let (nx, ny) = (nd(x), nd(y));
        if nx.op == Op::Extract && ny.op == Op::Extract && nx.a == ny.a && nx.k as u32 == ny.k as u32 + ny.w {
            return Some(ext_raw(nx.a, ny.k as u32, nx.w + ny.w));
        }
        if nx.op == Op::Ite && ny.op == Op::Ite && nx.a == ny.a && nx.w + ny.w <= 128 {
            if let (Some(k1), Some(k2), Some(k3), Some(k4)) = (konst(nx.b), konst(nx.c), konst(ny.b), konst(ny.c)) {
                let w = nx.w + ny.w;
                return Some(mk(Op::Ite, w, nx.a, cst(k1 << ny.w | k3, w), cst(k2 << ny.w | k4, w), 0));
            }
        }
        None
    };
    if nb.op == Op::Concat {
        if let Some(f) = fuse(a, nb.a) { return mk_concat(f, nb.b); }
    } else if let Some(f) = fuse(a, b) { return f; }
    mk(Op::Concat, w, a, b, 0, 0)
}

/// Like mk_extract, but never rewrites the operand: byte-wise pieces made by this
/// function fuse back into the operand when concatenated.
pub fn ext_raw(x: X, lo: u32, w: u32) -> X {
    let n = nd(x);
    if lo == 0 && w == n.w { return x; }
    match n.op {
        Op::Const => cst(n.k >> lo, w),
        Op::Extract => ext_raw(n.a, n.k as u32 + lo, w),
        Op::Concat => {
            let wb = nd(n.b).w;
            if lo >= wb { ext_raw(n.a, lo - wb, w) }
            else if lo + w <= wb { ext_raw(n.b, lo, w) }
            else { mk_concat(ext_raw(n.a, 0, lo + w - wb), ext_raw(n.b, lo, wb - lo)) }
        }
        Op::Ite if konst(n.b).is_some() && konst(n.c).is_some() => mk_ite(n.a, ext_raw(n.b, lo, w), ext_raw(n.c, lo, w)),
        _ => mk(Op::Extract, w, x, 0, 0, lo as u128),
    }
}
/// Re-simplify a term assembled from raw pieces.
pub fn norm(x: X) -> X {
    let n = nd(x);
    match n.op {
        Op::Extract => mk_extract(n.a, n.k as u32, n.w),
        Op::Concat => {
            let (a, b) = (norm(n.a), norm(n.b));
            if a == n.a && b == n.b { x } else { mk_concat(a, b) }
        }
        _ => x,
    }
}

/// bits lo .. lo+w
pub fn mk_extract(x: X, lo: u32, w: u32) -> X {
    let n = nd(x);
    if lo == 0 && w == n.w { return x; }
    debug_assert!(lo + w <= n.w, "extract {} {} of {}", lo, w, n.w);
    match n.op {
        Op::Const => cst(n.k >> lo, w),
        Op::Extract => mk_extract(n.a, n.k as u32 + lo, w),
        Op::Concat => {
            let wb = nd(n.b).w;
            if lo >= wb { mk_extract(n.a, lo - wb, w) }
            else if lo + w <= wb { mk_extract(n.b, lo, w) }
            else { mk_concat(mk_extract(n.a, 0, lo + w - wb), mk_extract(n.b, lo, wb - lo)) }
        }
        Op::Ite if ite_consts(x, 10) || n.w > 128 => {
            let (t, e) = (mk_extract(n.b, lo, w), mk_extract(n.c, lo, w));
            mk_ite(n.a, t, e)
        }
        Op::And => mk_and(mk_extract(n.a, lo, w), mk_extract(n.b, lo, w)),
        Op::Or => mk_or(mk_extract(n.a, lo, w), mk_extract(n.b, lo, w)),
        Op::Xor => mk_xor(mk_extract(n.a, lo, w), mk_extract(n.b, lo, w)),
        Op::Add if lo == 0 => mk_add(mk_extract(n.a, 0, w), mk_extract(n.b, 0, w)),
        Op::Sub if lo == 0 => mk_sub(mk_extract(n.a, 0, w), mk_extract(n.b, 0, w)),
        Op::Mul if lo == 0 => mk_mul(mk_extract(n.a, 0, w), mk_extract(n.b, 0, w)),
        Op::SExt => {
            let iw = nd(n.a).w;
            if lo + w <= iw { mk_extract(n.a, lo, w) }
            else if lo < iw { let y = mk_extract(n.a, lo, iw - lo); mk_sext(y, w) }
            else { let s = mk_extract(n.a, iw - 1, 1); mk_sext(s, w) }
        }
        _ => mk(Op::Extract, w, x, 0, 0, lo as u128),
    }
}
pub fn mk_zext(x: X, w: u32) -> X { let xw = width(x); if xw == w { x } else { mk_concat(cst(0, w - xw), x) } }
pub fn mk_sext(x: X, w: u32) -> X {
    let n = nd(x);
    if n.w == w { return x; }
    if n.op == Op::Const && w <= 128 { return cst(sx(n.k, n.w) as u128, w); }
    if n.op == Op::Concat { if let Some(k) = konst(n.a) { let hw = nd(n.a).w; if k >> (hw - 1) == 0 { return mk_zext(x, w); } } }
    if n.w == 1 { return mk_ite(x, cst(!0, w), cst(0, w)); }
    mk(Op::SExt, w, x, 0, 0, 0)
}

fn order(a: X, b: X) -> (X, X) {
    // constants to the right, otherwise by id
    let (ka, kb) = (nd(a).op == Op::Const, nd(b).op == Op::Const);
    if ka && !kb { (b, a) } else if kb { (a, b) } else if a <= b { (a, b) } else { (b, a) }
}

pub fn mk_add(a: X, b: X) -> X {
    let (a, b) = order(a, b);
    let w = width(a);
    if let Some(kb) = konst(b) {
        if kb == 0 { return a; }
        if let Some(ka) = konst(a) { return cst(ka.wrapping_add(kb), w); }
        let na = nd(a);
        if na.op == Op::Add { if let Some(k2) = konst(na.b) { return mk_add(na.a, cst(k2.wrapping_add(kb), w)); } }
        if na.op == Op::Ite && konst(na.b).is_some() && konst(na.c).is_some() {
            return mk_ite(na.a, mk_add(na.b, b), mk_add(na.c, b));
        }
        if w == 1 { return mk_not(a); }
        // concat(hi, lo) + k where the low part of k is zero
        if na.op == Op::Concat {
            let lw = nd(na.b).w;
            if kb & mask(lw) == 0 { return mk_concat(mk_add(na.a, cst(kb >> lw, w - lw)), na.b); }
        }
    } else {
        let (na, nb) = (nd(a), nd(b));
        // lift constants out
        if na.op == Op::Add && konst(na.b).is_some() { return mk_add(mk_add(na.a, b), na.b); }
        if nb.op == Op::Add && konst(nb.b).is_some() { return mk_add(mk_add(a, nb.a), nb.b); }
        if nb.op == Op::Sub && nb.b == a { return nb.a; }
        if na.op == Op::Sub && na.b == b { return na.a; }
    }
    mk(Op::Add, w, a, b, 0, 0)
}
pub fn mk_sub(a: X, b: X) -> X {
    let w = width(a);
    if a == b { return cst(0, w); }
    if let Some(kb) = konst(b) { return mk_add(a, cst(kb.wrapping_neg(), w)); }
    let (na, nb) = (nd(a), nd(b));
    if na.op == Op::Add {
        if na.a == b { return na.b; }
        if na.b == b { return na.a; }
        if konst(na.b).is_some() { return mk_add(mk_sub(na.a, b), na.b); }
    }
    if nb.op == Op::Add {
        if let Some(k) = konst(nb.b) { return mk_add(mk_sub(a, nb.a), cst(k.wrapping_neg(), w)); }
        if nb.a == a { return mk_sub(cst(0, w), nb.b); }
        if nb.b == a { return mk_sub(cst(0, w), nb.a); }
    }
    if na.op == Op::Const { if nb.op == Op::Ite && konst(nb.b).is_some() && konst(nb.c).is_some() {
        return mk_ite(nb.a, mk_sub(a, nb.b), mk_sub(a, nb.c));
    } }
    mk(Op::Sub, w, a, b, 0, 0)
}
pub fn mk_mul(a: X, b: X) -> X {
    let (a, b) = order(a, b);
    let w = width(a);
    if let Some(kb) = konst(b) {
        if let Some(ka) = konst(a) { return cst(ka.wrapping_mul(kb), w); }
        if kb == 0 { return b; }
        if kb == 1 { return a; }
        if kb.is_power_of_two() { return mk_shl(a, cst(kb.trailing_zeros() as u128, w)); }
        let na = nd(a);
        if na.op == Op::Ite && konst(na.b).is_some() && konst(na.c).is_some() {
            return mk_ite(na.a, mk_mul(na.b, b), mk_mul(na.c, b));
        }
    }
    mk(Op::Mul, w, a, b, 0, 0)
}
pub fn mk_shl(a: X, b: X) -> X {
    let w = width(a);
    if let Some(k) = konst(b) {
        if k == 0 { return a; }
        if k >= w as u128 { return cst(0, w); }
        let k = k as u32;
        return mk_concat(mk_extract(a, 0, w - k), cst(0, k));
    }
    if is_k(a, 0) { return a; }
    mk(Op::Shl, w, a, b, 0, 0)
}
pub fn mk_lshr(a: X, b: X) -> X {
    let w = width(a);
    if let Some(k) = konst(b) {
        if k == 0 { return a; }
        if k >= w as u128 { return cst(0, w); }
        let k = k as u32;
        return mk_concat(cst(0, k), mk_extract(a, k, w - k));
    }
    if is_k(a, 0) { return a; }
    mk(Op::LShr, w, a, b, 0, 0)
}
pub fn mk_ashr(a: X, b: X) -> X {
    let w = width(a);
    if let Some(k) = konst(b) {
        if k == 0 { return a; }
        let k = if k >= w as u128 { w - 1 } else { k as u32 };
        return mk_sext(mk_extract(a, k, w - k), w);
    }
    if is_k(a, 0) { return a; }
    mk(Op::AShr, w, a, b, 0, 0)
}
pub fn mk_udiv(a: X, b: X) -> X {
    let w = width(a);
    if let Some(kb) = konst(b) {
        if kb != 0 {
            if let Some(ka) = konst(a) { return cst(ka / kb, w); }
            if kb == 1 { return a; }
            if kb.is_power_of_two() { return mk_lshr(a, cst(kb.trailing_zeros() as u128, w)); }
            let na = nd(a);
            if na.op == Op::Concat && is_k(na.a, 0) {
                let lw = nd(na.b).w;
                if kb > mask(lw) { return cst(0, w); }
                return mk_zext(mk_udiv(na.b, cst(kb, lw)), w);
            }
        }
    }
    mk(Op::UDiv, w, a, b, 0, 0)
}
pub fn mk_urem(a: X, b: X) -> X {
    let w = width(a);
    if let Some(kb) = konst(b) {
        if kb != 0 {
            if let Some(ka) = konst(a) { return cst(ka % kb, w); }
            if kb == 1 { return cst(0, w); }
            if kb.is_power_of_two() { let t = kb.trailing_zeros(); return mk_zext(mk_extract(a, 0, t), w); }
            let na = nd(a);
            if na.op == Op::Concat && is_k(na.a, 0) {
                let lw = nd(na.b).w;
                if kb > mask(lw) { return a; }
                return mk_zext(mk_urem(na.b, cst(kb, lw)), w);
            }
        }
    }
    mk(Op::URem, w, a, b, 0, 0)
}
pub fn mk_sdiv(a: X, b: X) -> X {
    let w = width(a);
    if let (Some(ka), Some(kb)) = (konst(a), konst(b)) { if kb != 0 { return cst(sx(ka, w).wrapping_div(sx(kb, w)) as u128, w); } }
    mk(Op::SDiv, w, a, b, 0, 0)
}
pub fn mk_srem(a: X, b: X) -> X {
    let w = width(a);
    if let (Some(ka), Some(kb)) = (konst(a), konst(b)) { if kb != 0 { return cst(sx(ka, w).wrapping_rem(sx(kb, w)) as u128, w); } }
    mk(Op::SRem, w, a, b, 0, 0)
}

fn splitish(x: X) -> bool { matches!(nd(x).op, Op::Concat | Op::Const) }
fn bitwise_split(a: X, b: X, f: fn(X, X) -> X) -> Option<X> {
    let (na, nb) = (nd(a), nd(b));
    let lw = match (na.op, nb.op) {
        (Op::Concat, _) if splitish(b) => nd(na.b).w.min(if nb.op == Op::Concat { lowest(b) } else { !0 }).max(1),
        (_, Op::Concat) if splitish(a) => nd(nb.b).w,
        _ => return None,
    };
    let lw = if na.op == Op::Concat && nb.op == Op::Concat { let (x, y) = (nd(na.b).w, nd(nb.b).w); x.max(y) } else { lw };
    let w = na.w;
    let hi = f(mk_extract(a, lw, w - lw), mk_extract(b, lw, w - lw));
    let lo = f(mk_extract(a, 0, lw), mk_extract(b, 0, lw));
    Some(mk_concat(hi, lo))
}
fn lowest(x: X) -> u32 { let n = nd(x); if n.op == Op::Concat { lowest(n.b) } else { n.w } }

pub fn mk_and(a: X, b: X) -> X {
    if a == b { return a; }
    let (a, b) = order(a, b);
    let w = width(a);
    if let Some(kb) = konst(b) {
        if kb == 0 { return b; }
        if kb == mask(w) { return a; }
        if let Some(ka) = konst(a) { return cst(ka & kb, w); }
        // contiguous masks become extracts
        let t = kb.trailing_zeros();
        let m = kb >> t;
        if (m & m.wrapping_add(1)) == 0 {
            let l = 128 - m.leading_zeros();
            let mut r = mk_extract(a, t, l);
            if t > 0 { r = mk_concat(r, cst(0, t)); }
            return mk_zext(r, w);
        }
        let na = nd(a);
        if na.op == Op::And { if let Some(k2) = konst(na.b) { return mk_and(na.a, cst(k2 & kb, w)); } }
    }
    if w == 1 {
        if mk_not(a) == b { return fls(); }
        let (na, nb) = (nd(a), nd(b));
        if na.op == Op::And && (na.a == b || na.b == b) { return a; }
        if nb.op == Op::And && (nb.a == a || nb.b == a) { return b; }
        if na.op == Op::Or && (na.a == b || na.b == b) { return b; }
        if nb.op == Op::Or && (nb.a == a || nb.b == a) { return a; }
    } else if let Some(r) = bitwise_split(a, b, mk_and) { return r; }
    if let Some(r) = ite_lift(a, b, mk_and) { return r; }
    mk(Op::And, w, a, b, 0, 0)
}
fn ite_lift(a: X, b: X, f: fn(X, X) -> X) -> Option<X> {
    // op(ite(c,k1,k2), k3) with constants
    let na = nd(a);
    if nd(b).op == Op::Const && na.w > 1 && na.op == Op::Ite && konst(na.b).is_some() && konst(na.c).is_some() {
        return Some(mk_ite(na.a, f(na.b, b), f(na.c, b)));
    }
    None
}
pub fn mk_or(a: X, b: X) -> X {
    if a == b { return a; }
    let (a, b) = order(a, b);
    let w = width(a);
    if let Some(kb) = konst(b) {
        if kb == 0 { return a; }
        if kb == mask(w) { return b; }
        if let Some(ka) = konst(a) { return cst(ka | kb, w); }
    }
    if w == 1 {
        if mk_not(a) == b { return tru(); }
        let (na, nb) = (nd(a), nd(b));
        if na.op == Op::Or && (na.a == b || na.b == b) { return a; }
        if nb.op == Op::Or && (nb.a == a || nb.b == a) { return b; }
        if na.op == Op::And && (na.a == b || na.b == b) { return b; }
        if nb.op == Op::And && (nb.a == a || nb.b == a) { return a; }
        // (x & !y) | y  ->  x | y
        if na.op == Op::And { let nb_ = mk_not(b); if na.a == nb_ { return mk_or(na.b, b); } if na.b == nb_ { return mk_or(na.a, b); } }
        if nb.op == Op::And { let na_ = mk_not(a); if nb.a == na_ { return mk_or(nb.b, a); } if nb.b == na_ { return mk_or(nb.a, a); } }
    } else if let Some(r) = bitwise_split(a, b, mk_or) { return r; }
    if let Some(r) = ite_lift(a, b, mk_or) { return r; }
    mk(Op::Or, w, a, b, 0, 0)
}
pub fn mk_xor(a: X, b: X) -> X {
    let w = width(a);
    if a == b { return cst(0, w); }
    let (a, b) = order(a, b);
    if let Some(kb) = konst(b) {
        if kb == 0 { return a; }
        if let Some(ka) = konst(a) { return cst(ka ^ kb, w); }
        if w == 1 { return mk_not(a); }
        let na = nd(a);
        if na.op == Op::Xor { if let Some(k2) = konst(na.b) { return mk_xor(na.a, cst(k2 ^ kb, w)); } }
    }
    if w == 1 { return mk_not(mk_eq(a, b)); }
    if let Some(r) = bitwise_split(a, b, mk_xor) { return r; }
    if let Some(r) = ite_lift(a, b, mk_xor) { return r; }
    mk(Op::Xor, w, a, b, 0, 0)
}

pub fn mk_ite(c: X, t: X, e: X) -> X {
    if let Some(k) = konst(c) { return if k == 1 { t } else { e }; }
    if t == e { return t; }
    let nc = nd(c);
    if nc.op == Op::Not { return mk_ite(nc.a, e, t); }
    let (nt, ne) = (nd(t), nd(e));
    let w = nt.w;
    if w == 1 {
        if is_k(t, 1) { return mk_or(c, e); }
        if is_k(t, 0) { return mk_and(mk_not(c), e); }
        if is_k(e, 0) { return mk_and(c, t); }
        if is_k(e, 1) { return mk_or(mk_not(c), t); }
        if t == c { return mk_or(c, e); }
        if e == c { return mk_and(c, t); }
    }
    // nested on the same condition
    if nt.op == Op::Ite && nt.a == c { return mk_ite(c, nt.b, e); }
    if ne.op == Op::Ite && ne.a == c { return mk_ite(c, t, ne.c); }
    if ne.op == Op::Ite && ne.b == t { return mk_ite(mk_or(c, ne.a), t, ne.c); }
    if ne.op == Op::Ite && ne.c == t { return mk_ite(mk_and(mk_not(c), ne.a), ne.b, t); }
    if nt.op == Op::Ite && nt.c == e { return mk_ite(mk_and(c, nt.a), nt.b, e); }
    if nt.op == Op::Ite && nt.b == e { return mk_ite(mk_or(mk_not(c), nt.a), e, nt.c); }
    // common structure
    let at_t = if nt.op == Op::Concat { Some(nd(nt.b).w) } else { None };
    let at_e = if ne.op == Op::Concat { Some(nd(ne.b).w) } else { None };
    let cut = match (at_t, at_e) {
        (Some(x), Some(y)) => Some(x.max(y)),
        (Some(x), _) if ne.op == Op::Const => Some(x),
        (_, Some(y)) if nt.op == Op::Const => Some(y),
        (None, None) if nt.op == Op::Const && ne.op == Op::Const && w > 1 => {
            // strip common leading bits
            let d = (nt.k ^ ne.k) & mask(w);
            let l = 128 - d.leading_zeros();
            let t0 = d.trailing_zeros();
            if l < w { Some(l) } else if t0 > 0 { Some(t0) } else { None }
        }
        _ => None,
    };
    if let Some(l) = cut {
        let hi = mk_ite(c, mk_extract(t, l, w - l), mk_extract(e, l, w - l));
        let lo = mk_ite(c, mk_extract(t, 0, l), mk_extract(e, 0, l));
        return mk_concat(hi, lo);
    }
    if nt.op == Op::Const && ne.op == Op::Const && w == 1 { return if nt.k == 1 { c } else { mk_not(c) }; }
    mk(Op::Ite, w, c, t, e, 0)
}

fn ite_consts(x: X, depth: u32) -> bool {
    // an ite tree whose leaves are constants
    if depth == 0 { return false; }
    let n = nd(x);
    match n.op { Op::Const => true, Op::Ite => ite_consts(n.b, depth - 1) && ite_consts(n.c, depth - 1), _ => false }
}

pub fn mk_eq(a: X, b: X) -> X {
    if a == b { return tru(); }
    let (a, b) = order(a, b);
    let (na, nb) = (nd(a), nd(b));
    let w = na.w;
    debug_assert!(w == nb.w, "eq width {} {}", w, nb.w);
    if na.op == Op::Const && nb.op == Op::Const { return cst((na.k == nb.k) as u128, 1); }
    if w == 1 {
        if let Some(k) = konst(b) { return if k == 1 { a } else { mk_not(a) }; }
        if mk_not(a) == b { return fls(); }
    }
    // split concats
    if na.op == Op::Concat || nb.op == Op::Concat {
        let ok = (na.op == Op::Concat && (nb.op == Op::Const || nb.op == Op::Concat)) || w > 64;
        if ok {
            let l = if na.op == Op::Concat { nd(na.b).w } else { nd(nb.b).w };
            let l = if na.op == Op::Concat && nb.op == Op::Concat { l.max(nd(nb.b).w) } else { l };
            let hi = mk_eq(mk_extract(a, l, w - l), mk_extract(b, l, w - l));
            if is_k(hi, 0) { return hi; }
            let lo = mk_eq(mk_extract(a, 0, l), mk_extract(b, 0, l));
            return mk_and(hi, lo);
        }
    }
    if w > 64 && !(na.op == Op::Ite && nb.op == Op::Const) && w > 128 {
        let l = w / 2;
        return mk_and(mk_eq(mk_extract(a, l, w - l), mk_extract(b, l, w - l)), mk_eq(mk_extract(a, 0, l), mk_extract(b, 0, l)));
    }
    if let Some(kb) = konst(b) {
        match na.op {
            Op::Add => if let Some(k2) = konst(na.b) { return mk_eq(na.a, cst(kb.wrapping_sub(k2), w)); },
            Op::Sub => if kb == 0 { return mk_eq(na.a, na.b); } else if let Some(ka) = konst(na.a) { return mk_eq(na.b, cst(ka.wrapping_sub(kb), w)); },
            Op::Xor => if let Some(k2) = konst(na.b) { return mk_eq(na.a, cst(kb ^ k2, w)); } else if kb == 0 { return mk_eq(na.a, na.b); },
            Op::Ite => {
                if konst(na.b).is_some() || konst(na.c).is_some() || ite_consts(a, 12) {
                    let t = mk_eq(na.b, b);
                    let e = mk_eq(na.c, b);
                    return mk_ite(na.a, t, e);
                }
            }
            Op::SExt => {
                let iw = nd(na.a).w;
                let low = kb & mask(iw);
                if cst(sx(low, iw) as u128, w) == b { return mk_eq(na.a, cst(low, iw)); } else { return fls(); }
            }
            Op::Or => if kb == 0 { return mk_and(mk_eq(na.a, b), mk_eq(na.b, b)); },
            _ => {}
        }
    } else {
        if na.op == Op::Add && nb.op == Op::Add && konst(na.b).is_some() && na.b == nb.b { return mk_eq(na.a, nb.a); }
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
            let t = mk_eq(na.b, nb.b);
            let e = mk_eq(na.c, nb.c);
            return mk_ite(na.a, t, e);
        }
    }
    mk(Op::Eq, 1, a, b, 0, 0)
}
pub fn mk_ne(a: X, b: X) -> X { mk_not(mk_eq(a, b)) }

/// (min, max) of the unsigned value, cheap over-approximation
pub fn bounds(x: X) -> (u128, u128) { bounds_d(x, 6) }
fn bounds_d(x: X, d: u32) -> (u128, u128) {
    let n = nd(x);
    let full = (0, mask(n.w));
    if n.w > 128 { return full; }
    if n.op == Op::Const { return (n.k, n.k); }
    if d == 0 { return full; }
    match n.op {
        Op::Concat => {
            let lw = nd(n.b).w;
            let (h0, h1) = bounds_d(n.a, d - 1);
            let (l0, l1) = bounds_d(n.b, d - 1);
            ((h0 << lw) | l0, (h1 << lw) | l1)
        }
        Op::Ite => {
            let (a0, a1) = bounds_d(n.b, d - 1);
            let (b0, b1) = bounds_d(n.c, d - 1);
            (a0.min(b0), a1.max(b1))
        }
        Op::Add => {
            let (a0, a1) = bounds_d(n.a, d - 1);
            let (b0, b1) = bounds_d(n.b, d - 1);
            match (a0.checked_add(b0), a1.checked_add(b1)) { (Some(l), Some(h)) if h <= mask(n.w) => (l, h), _ => full }
        }
        Op::Mul => {
            let (a0, a1) = bounds_d(n.a, d - 1);
            let (b0, b1) = bounds_d(n.b, d - 1);
            match (a0.checked_mul(b0), a1.checked_mul(b1)) { (Some(l), Some(h)) if h <= mask(n.w) => (l, h), _ => full }
        }
        Op::And => { let (_, a1) = bounds_d(n.a, d - 1); let (_, b1) = bounds_d(n.b, d - 1); (0, a1.min(b1)) }
        Op::UDiv => { if let Some(k) = konst(n.b) { if k > 0 { let (a0, a1) = bounds_d(n.a, d - 1); return (a0 / k, a1 / k); } } full }
        Op::URem => { if let Some(k) = konst(n.b) { if k > 0 { return (0, k - 1); } } full }
        _ => full,
    }
}

pub fn mk_ult(a: X, b: X) -> X {
    if a == b { return fls(); }
    let (na, nb) = (nd(a), nd(b));
    let w = na.w;
    debug_assert!(w == nb.w);
    if na.op == Op::Const && nb.op == Op::Const { return cst((na.k < nb.k) as u128, 1); }
    if is_k(b, 0) || is_ones(a) { return fls(); }
    if is_k(b, 1) { return mk_eq(a, cst(0, w)); }
    if is_k(a, 0) { return mk_not(mk_eq(b, cst(0, w))); }
    if w == 1 { return mk_and(mk_not(a), b); }
    let (a0, a1) = bounds(a);
    let (b0, b1) = bounds(b);
    if a1 < b0 { return tru(); }
    if a0 >= b1 { return fls(); }
    // equal leading constant parts
    let hiw = |n: &Node| if n.op == Op::Concat && nd(n.a).op == Op::Const { Some((nd(n.a).w, nd(n.a).k)) } else { None };
    let (ha, hb) = (hiw(&na), hiw(&nb));
    let strip = match (ha, hb) {
        (Some((wa, ka)), _) if nb.op == Op::Const && (nb.k >> (w - wa)) == ka => Some(wa),
        (_, Some((wb, kb))) if na.op == Op::Const && (na.k >> (w - wb)) == kb => Some(wb),
        (Some((wa, ka)), Some((wb, kb))) => { let m = wa.min(wb); if (ka >> (wa - m)) == (kb >> (wb - m)) { Some(m) } else { None } }
        _ => None,
    };
    if let Some(s) = strip { return mk_ult(mk_extract(a, 0, w - s), mk_extract(b, 0, w - s)); }
    if nb.op == Op::Const && ite_consts(a, 12) {
        let t = mk_ult(na.b, b);
        let e = mk_ult(na.c, b);
        return mk_ite(na.a, t, e);
    }
    if na.op == Op::Const && ite_consts(b, 12) {
        let t = mk_ult(a, nb.b);
        let e = mk_ult(a, nb.c);
        return mk_ite(nb.a, t, e);
    }
    mk(Op::Ult, 1, a, b, 0, 0)
}
pub fn mk_ule(a: X, b: X) -> X { mk_not(mk_ult(b, a)) }
fn nonneg(x: X) -> bool { let n = nd(x); bounds(x).1 >> (n.w - 1) == 0 }
pub fn mk_slt(a: X, b: X) -> X {
    if a == b { return fls(); }
    let (na, nb) = (nd(a), nd(b));
    let w = na.w;
    if na.op == Op::Const && nb.op == Op::Const { return cst((sx(na.k, w) < sx(nb.k, w)) as u128, 1); }
    let (pa, pb) = (nonneg(a), nonneg(b));
    if pa && pb { return mk_ult(a, b); }
    if is_k(b, 0) { return mk_extract(a, w - 1, 1); }
    if is_ones(a) { return mk_not(mk_extract(b, w - 1, 1)); }
    if nb.op == Op::Const && ite_consts(a, 12) { let t = mk_slt(na.b, b); let e = mk_slt(na.c, b); return mk_ite(na.a, t, e); }
    if na.op == Op::Const && ite_consts(b, 12) { let t = mk_slt(a, nb.b); let e = mk_slt(a, nb.c); return mk_ite(nb.a, t, e); }
    if na.op == Op::SExt && nb.op == Op::Const {
        let iw = nd(na.a).w;
        let k = sx(nb.k, w);
        let (lo, hi) = (-(1i128 << (iw - 1)), (1i128 << (iw - 1)) - 1);
        if k > hi { return tru(); }
        if k <= lo { return fls(); }
        return mk_slt(na.a, cst(k as u128, iw));
    }
    mk(Op::Slt, 1, a, b, 0, 0)
}

pub fn support(x: X) -> Rc<Vec<u32>> {
    if let Some(s) = &cx().supp[x as usize] { return s.clone(); }
    let n = nd(x);
    let r: Rc<Vec<u32>> = match n.op {
        Op::Const => Rc::new(vec![]),
        Op::Var => Rc::new(vec![n.k as u32]),
        _ => {
            let sa = support(n.a);
            let mut parts = vec![];
            if n.b != 0 { parts.push(support(n.b)); }
            if n.c != 0 { parts.push(support(n.c)); }
            parts.retain(|p| !p.is_empty() && !Rc::ptr_eq(p, &sa));
            if parts.is_empty() { sa } else {
                let mut v: Vec<u32> = sa.as_ref().clone();
                for p in parts { v.extend_from_slice(&p); }
                v.sort_unstable();
                v.dedup();
                if v.len() == sa.len() { sa } else { Rc::new(v) }
            }
        }
    };
    cx().supp[x as usize] = Some(r.clone());
    r
}

pub fn bin_eval(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => if b == 0 { if sx(a, w) < 0 { 1 } else { m } } else { sx(a, w).wrapping_div(sx(b, w)) as u128 },
        Op::SRem => if b == 0 { a } else { sx(a, w).wrapping_rem(sx(b, w)) as u128 },
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { a << b },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u128 { w - 1 } else { b as u32 }; (sx(a, w) >> s) as u128 }
        _ => unreachable!(),
    }) & m
}

/// Value of x when variable v has value model[v].
pub fn eval(x: X, model: &[u8]) -> u128 {
    let c = cx();
    c.gen += 1;
    let g = c.gen;
    if c.memo.len() < c.nodes.len() { c.memo.resize(c.nodes.len() * 2, (0, 0)); }
    ev(c, g, x, model)
}
fn ev(c: &mut Ctx, g: u32, x: X, m: &[u8]) -> u128 {
    let n = unsafe { *c.nodes.get_unchecked(x as usize) };
    match n.op {
        Op::Const => return n.k,
        Op::Var => return *m.get(n.k as usize).unwrap_or(&0) as u128,
        _ => {}
    }
    let e = c.memo[x as usize];
    if e.0 == g { return e.1; }
    let r = match n.op {
        Op::Ite => if ev(c, g, n.a, m) == 1 { ev(c, g, n.b, m) } else { ev(c, g, n.c, m) },
        Op::Concat => { let lw = c.nodes[n.b as usize].w; let h = ev(c, g, n.a, m); let l = ev(c, g, n.b, m); if lw >= 128 { l } else { ((h << lw) | l) & mask(n.w) } }
        Op::Extract => {
            debug_assert!(c.nodes[n.a as usize].w <= 128);
            (ev(c, g, n.a, m) >> (n.k as u32)) & mask(n.w)
        }
        Op::SExt => { let iw = c.nodes[n.a as usize].w; (sx(ev(c, g, n.a, m), iw) as u128) & mask(n.w) }
        Op::Not => 1 - ev(c, g, n.a, m),
        Op::And if n.w == 1 => if ev(c, g, n.a, m) == 0 { 0 } else { ev(c, g, n.b, m) },
        Op::Or if n.w == 1 => if ev(c, g, n.a, m) == 1 { 1 } else { ev(c, g, n.b, m) },
        Op::Eq => (ev(c, g, n.a, m) == ev(c, g, n.b, m)) as u128,
        Op::Ult => (ev(c, g, n.a, m) < ev(c, g, n.b, m)) as u128,
        Op::Slt => { let w = c.nodes[n.a as usize].w; (sx(ev(c, g, n.a, m), w) < sx(ev(c, g, n.b, m), w)) as u128 }
        op => { let a = ev(c, g, n.a, m); let b = ev(c, g, n.b, m); bin_eval(op, n.w, a, b) }
    };
    c.memo[x as usize] = (g, r);
    r
}

/// Truth table over the single byte variable in x's support (x has width 1).
pub fn truth(x: X) -> [u64; 4] {
    if let Some(t) = cx().tt.get(&x) { return *t; }
    let v = support(x)[0];
    let mut m = vec![0u8; v as usize + 1];
    let mut t = [0u64; 4];
    for i in 0..256usize {
        m[v as usize] = i as u8;
        if eval(x, &m) == 1 { t[i / 64] |= 1 << (i % 64); }
    }
    cx().tt.insert(x, t);
    t
}

pub fn show(x: X) -> String { show_d(x, 6) }
pub fn show_d(x: X, d: u32) -> String {
    let n = nd(x);
    match n.op {
        Op::Const => format!("{:#x}:{}", n.k, n.w),
        Op::Var => format!("v{}", n.k),
        _ if d == 0 => format!("#{}", x),
        Op::Extract => format!("{}[{}+{}]", show_d(n.a, d - 1), n.k, n.w),
        _ => {
            let mut s = format!("({:?}:{}", n.op, n.w);
            for y in [n.a, n.b, n.c] { if y != 0 { s.push(' '); s.push_str(&show_d(y, d - 1)); } }
            s.push(')');
            s
        }
    }
}

/// Truth table of the 1-bit term x over variable v, the other variables fixed by the model.
pub fn truth_at(x: X, v: u32, model: &[u8], only: bool) -> [u64; 4] {
    if only { return truth(x); }
    let mut m = model.to_vec();
    let mut t = [0u64; 4];
    for i in 0..256usize {
        m[v as usize] = i as u8;
        if eval(x, &m) == 1 { t[i / 64] |= 1 << (i % 64); }
    }
    t
}
/// Interval of x when each variable lies in its range (sound over-approximation).
pub fn range(x: X, dom: &dyn Fn(u32) -> (u8, u8)) -> (u128, u128) {
    let mut memo: std::collections::HashMap<X, (u128, u128)> = Default::default();
    let mut left = 4000;
    range_r(x, dom, &mut memo, &mut left)
}
fn range_r(x: X, dom: &dyn Fn(u32) -> (u8, u8), memo: &mut std::collections::HashMap<X, (u128, u128)>, left: &mut u32) -> (u128, u128) {
    let n = nd(x);
    if n.op == Op::Const { return (n.k, n.k); }
    if n.op == Op::Var { let (a, b) = dom(n.k as u32); return (a as u128, b as u128); }
    let full = (0, mask(n.w));
    if n.w > 128 || *left == 0 { return full; }
    if let Some(&r) = memo.get(&x) { return r; }
    *left -= 1;
    let mut f = |y: X| range_r(y, dom, memo, left);
    let r = match n.op {
        Op::Concat => { let lw = nd(n.b).w; let (h0, h1) = f(n.a); let (l0, l1) = f(n.b); ((h0 << lw) | l0, (h1 << lw) | l1) }
        Op::Ite => {
            let c = f(n.a);
            if c == (1, 1) { f(n.b) } else if c == (0, 0) { f(n.c) } else { let (a0, a1) = f(n.b); let (b0, b1) = f(n.c); (a0.min(b0), a1.max(b1)) }
        }
        Op::Add => { let (a0, a1) = f(n.a); let (b0, b1) = f(n.b); match (a0.checked_add(b0), a1.checked_add(b1)) { (Some(l), Some(h)) if h <= mask(n.w) => (l, h), (Some(l), Some(h)) if l > mask(n.w) && h - l <= mask(n.w) && n.w < 128 && (l >> n.w) == (h >> n.w) => (l & mask(n.w), h & mask(n.w)), _ => full } }
        Op::Sub => { let (a0, a1) = f(n.a); let (b0, b1) = f(n.b); if a0 >= b1 { (a0 - b1, a1 - b0) } else { full } }
        Op::Mul => { let (a0, a1) = f(n.a); let (b0, b1) = f(n.b); match (a0.checked_mul(b0), a1.checked_mul(b1)) { (Some(l), Some(h)) if h <= mask(n.w) => (l, h), _ => full } }
        Op::UDiv => if let Some(k) = konst(n.b) { if k > 0 { let (a0, a1) = f(n.a); (a0 / k, a1 / k) } else { full } } else { full },
        Op::URem => if let Some(k) = konst(n.b) { if k > 0 { let (a0, a1) = f(n.a); if a1 < k { (a0, a1) } else { (0, k - 1) } } else { full } } else { full },
        Op::Extract => { let (a0, a1) = f(n.a); let k = n.k as u32; let (l, h) = (a0 >> k, a1 >> k); if h - l <= mask(n.w) && (l & mask(n.w)) <= (h & mask(n.w)) && (l >> (n.w - 1) >> 1) == (h >> (n.w - 1) >> 1) { (l & mask(n.w), h & mask(n.w)) } else { full } }
        Op::And if n.w == 1 => { let a = f(n.a); if a == (0, 0) { a } else { let b = f(n.b); if b == (0, 0) { b } else if a == (1, 1) && b == (1, 1) { (1, 1) } else { full } } }
        Op::And => { let (_, a1) = f(n.a); let (_, b1) = f(n.b); (0, a1.min(b1)) }
        Op::Or if n.w == 1 => { let a = f(n.a); if a == (1, 1) { a } else { let b = f(n.b); if b == (1, 1) { b } else if a == (0, 0) && b == (0, 0) { (0, 0) } else { full } } }
        Op::Or => { let (a0, _) = f(n.a); let (b0, _) = f(n.b); (a0.max(b0), mask(n.w)) }
        Op::Not if n.w == 1 => { let (a, b) = f(n.a); (1 - b, 1 - a) }
        Op::Not => { let (a, b) = f(n.a); (mask(n.w) - b, mask(n.w) - a) }
        Op::Ult => { let (a0, a1) = f(n.a); let (b0, b1) = f(n.b); if a1 < b0 { (1, 1) } else if a0 >= b1 { (0, 0) } else { full } }
        Op::Eq => { let (a0, a1) = f(n.a); let (b0, b1) = f(n.b); if a0 == a1 && b0 == b1 && a0 == b0 { (1, 1) } else if a1 < b0 || b1 < a0 { (0, 0) } else { full } }
        _ => full,
    };
    memo.insert(x, r);
    r
}
/// What (x == want) implies for the ranges of single variables: comparisons of concatenations and sums.
pub fn narrow(x: X, want: bool, dom: &dyn Fn(u32) -> (u8, u8), out: &mut Vec<(u32, u8, u8)>) {
    let n = nd(x);
    match n.op {
        Op::Not if n.w == 1 => narrow(n.a, !want, dom, out),
        Op::Ult => {
            let (a0, a1) = range(n.a, dom);
            let (b0, b1) = range(n.b, dom);
            if want { if b1 > 0 { narrow_to(n.a, a0, a1.min(b1 - 1), dom, out, 12); } narrow_to(n.b, b0.max(a0 + 1), b1, dom, out, 12); }
            else { narrow_to(n.a, a0.max(b0), a1, dom, out, 12); narrow_to(n.b, b0, b1.min(a1), dom, out, 12); }
        }
        Op::Eq if want => {
            let (a0, a1) = range(n.a, dom);
            let (b0, b1) = range(n.b, dom);
            let (lo, hi) = (a0.max(b0), a1.min(b1));
            narrow_to(n.a, lo, hi, dom, out, 12);
            narrow_to(n.b, lo, hi, dom, out, 12);
        }
        _ => {}
    }
}
fn narrow_to(x: X, lo: u128, hi: u128, dom: &dyn Fn(u32) -> (u8, u8), out: &mut Vec<(u32, u8, u8)>, d: u32) {
    if lo > hi || d == 0 { return; }
    let n = nd(x);
    match n.op {
        Op::Var => { let (a, b) = dom(n.k as u32); let l = lo.max(a as u128); let h = hi.min(b as u128); if l <= h && (l > a as u128 || h < b as u128) { out.push((n.k as u32, l as u8, h as u8)); } }
        Op::Concat => {
            let lw = nd(n.b).w;
            narrow_to(n.a, lo >> lw, hi >> lw, dom, out, d);
            if lo >> lw == hi >> lw { narrow_to(n.b, lo & mask(lw), hi & mask(lw), dom, out, d - 1); }
            else if let (a0, a1) = range(n.a, dom) { if a0 == a1 { let base = a0 << lw; let l = lo.saturating_sub(base); let h = hi.saturating_sub(base).min(mask(lw)); if hi >= base { narrow_to(n.b, l, h, dom, out, d - 1); } } }
        }
        Op::Add => {
            let (a0, a1) = range(n.a, dom);
            let (b0, b1) = range(n.b, dom);
            match a1.checked_add(b1) { Some(h) if h <= mask(n.w) => {}, _ => return }
            if hi >= b0 { narrow_to(n.a, lo.saturating_sub(b1).max(a0), (hi - b0).min(a1), dom, out, d - 1); }
            if hi >= a0 { narrow_to(n.b, lo.saturating_sub(a1).max(b0), (hi - a0).min(b1), dom, out, d - 1); }
        }
        _ => {}
    }
}

/// x with the boolean c replaced by k, looking a few levels deep (valid wherever c = k holds).
pub fn subst(x: X, c: X, k: bool, depth: u32) -> X {
    if x == c { return if k { tru() } else { fls() }; }
    if depth == 0 { return x; }
    let n = nd(x);
    let d = depth - 1;
    match n.op {
        Op::Add | Op::Sub | Op::And | Op::Or | Op::Xor | Op::Concat => {
            let (p, q) = (subst(n.a, c, k, d), subst(n.b, c, k, d));
            if p == n.a && q == n.b { return x; }
            match n.op { Op::Add => mk_add(p, q), Op::Sub => mk_sub(p, q), Op::And => mk_and(p, q), Op::Or => mk_or(p, q), Op::Xor => mk_xor(p, q), _ => mk_concat(p, q) }
        }
        Op::Not => { let p = subst(n.a, c, k, d); if p == n.a { x } else { mk_not(p) } }
        Op::Ite => {
            let (p, q, r) = (subst(n.a, c, k, d), subst(n.b, c, k, d), subst(n.c, c, k, d));
            if p == n.a && q == n.b && r == n.c { x } else { mk_ite(p, q, r) }
        }
        _ => x,
    }
}

// ---- linear forms: x = k + sum c_v * v, as integers for all values of the variables in their ranges
// (exact), or modulo 2^w only; negative 128-bit constants stand for themselves until added to something
#[derive(Clone)]
struct Lin { k: i128, c: Vec<(u32, i128)>, exact: bool }
const LIN_MAX: i128 = 1 << 120;
type Dom<'a> = &'a dyn Fn(u32) -> (u8, u8);
fn lin_range(l: &Lin, dom: Dom) -> Option<(i128, i128)> {
    if !l.exact { return None; }
    let (mut lo, mut hi) = (l.k, l.k);
    for &(v, c) in &l.c {
        let (a, b) = dom(v);
        let (p, q) = (c.checked_mul(a as i128)?, c.checked_mul(b as i128)?);
        lo = lo.checked_add(p.min(q))?;
        hi = hi.checked_add(p.max(q))?;
    }
    if lo < -LIN_MAX || hi > LIN_MAX { return None; }
    Some((lo, hi))
}
fn lin_scale(l: &Lin, s: i128) -> Lin {
    let mut exact = l.exact;
    let mut m = |x: i128| match x.checked_mul(s) { Some(y) => y, None => { exact = false; x.wrapping_mul(s) } };
    let k = m(l.k);
    let c = l.c.iter().map(|&(v, c)| (v, m(c))).collect();
    Lin { k, c, exact }
}
fn lin_add(a: &Lin, b: &Lin) -> Lin {
    let mut exact = a.exact && b.exact;
    let mut m: std::collections::BTreeMap<u32, i128> = a.c.iter().cloned().collect();
    let mut add = |x: i128, y: i128| match x.checked_add(y) { Some(z) => z, None => { exact = false; x.wrapping_add(y) } };
    for &(v, c) in &b.c { let e = m.entry(v).or_insert(0); *e = add(*e, c); }
    let k = add(a.k, b.k);
    Lin { k, c: m.into_iter().filter(|&(_, c)| c != 0).collect(), exact }
}
/// the form of the value modulo 2^w
fn lin_wrap(l: Lin, w: u32, dom: Dom) -> Lin {
    if let Some((lo, hi)) = lin_range(&l, dom) {
        if w >= 120 { if lo >= 0 { return l; } }
        else if lo >> w == hi >> w { return Lin { k: l.k - ((lo >> w) << w), ..l }; }
    }
    let m = |x: i128| (x as u128 & mask(w)) as i128;
    let r = Lin { k: m(l.k), c: l.c.iter().map(|&(v, c)| (v, m(c))).filter(|&(_, c)| c != 0).collect(), exact: false };
    // with the coefficients of least magnitude it may lie in one period
    let s = Lin { k: sx(r.k as u128, w), c: r.c.iter().map(|&(v, c)| (v, sx(c as u128, w))).collect(), exact: true };
    if let Some((lo, hi)) = lin_range(&s, dom) {
        if w >= 120 { if lo >= 0 { return s; } }
        else if lo >> w == hi >> w { return Lin { k: s.k - ((lo >> w) << w), ..s }; }
    }
    r
}
fn lin_build(l: &Lin, w: u32) -> X {
    let mut s = cst(l.k as u128 & mask(w), w);
    for &(v, c) in &l.c {
        let x = if w >= 8 { mk_zext(var(v), w) } else { mk_extract(var(v), 0, w) };
        s = mk_add(mk_mul(x, cst(c as u128 & mask(w), w)), s);
    }
    s
}
/// x rewritten to an equal term for the values of the variables in their ranges: linear subterms in a canonical form.
pub fn rewrite(x: X, dom: Dom) -> X {
    let mut memo: std::collections::HashMap<X, (X, Option<Lin>)> = Default::default();
    let mut left = 20000;
    rewrite_r(x, dom, &mut memo, &mut left).0
}
fn rewrite_r(x: X, dom: Dom, memo: &mut std::collections::HashMap<X, (X, Option<Lin>)>, left: &mut u32) -> (X, Option<Lin>) {
    let n = nd(x);
    let kon = |k: i128| Some(Lin { k, c: vec![], exact: true });
    if n.op == Op::Const { return (x, if n.w <= 128 { if n.k < LIN_MAX as u128 { kon(n.k as i128) } else { Some(Lin { k: n.k as i128, c: vec![], exact: n.w == 128 && n.k as i128 > -LIN_MAX && (n.k as i128) < 0 }) } } else { None }); }
    if n.op == Op::Var { let (a, b) = dom(n.k as u32); return if a == b { (cst(a as u128, 8), kon(a as i128)) } else { (x, Some(Lin { k: 0, c: vec![(n.k as u32, 1)], exact: true })) }; }
    if *left == 0 { return (x, None); }
    if let Some(r) = memo.get(&x) { return r.clone(); }
    *left -= 1;
    let w = n.w;
    let mut f = |y: X| rewrite_r(y, dom, memo, left);
    let two = |l: &Option<Lin>, r: &Option<Lin>, s: i128| -> Option<Lin> { Some(lin_add(l.as_ref()?, &lin_scale(r.as_ref()?, s))) };
    let (y, l) = match n.op {
        Op::Add => { let (p, q) = (f(n.a), f(n.b)); (mk_add(p.0, q.0), two(&p.1, &q.1, 1)) }
        Op::Sub => { let (p, q) = (f(n.a), f(n.b)); (mk_sub(p.0, q.0), two(&p.1, &q.1, -1)) }
        Op::Mul => {
            let (p, q) = (f(n.a), f(n.b));
            let l = match (&p.1, &q.1) { (Some(a), Some(b)) if b.c.is_empty() => Some(lin_scale(a, b.k)), (Some(a), Some(b)) if a.c.is_empty() => Some(lin_scale(b, a.k)), _ => None };
            (mk_mul(p.0, q.0), l)
        }
        Op::Xor if is_ones(n.b) && w <= 128 => {
            let p = f(n.a);
            // -x - 1
            (mk_xor(p.0, n.b), p.1.as_ref().map(|a| lin_add(&lin_scale(a, -1), &Lin { k: -1, c: vec![], exact: true })))
        }
        Op::Concat => {
            let (p, q) = (f(n.a), f(n.b));
            let lw = nd(n.b).w;
            // the upper part of a sum and its lower part make up the sum
            let np = nd(p.0);
            if np.op == Op::Extract && np.k as u32 == lw && w <= 128 && q.1.is_some() {
                let (y, ly) = f(np.a);
                if let (Some(ly), Some(lq)) = (ly, &q.1) {
                    let red = |l: &Lin| { let m = |x: i128| (x as u128 & mask(lw)) as i128; (m(l.k), l.c.iter().map(|&(v, c)| (v, m(c))).filter(|x| x.1 != 0).collect::<Vec<_>>()) };
                    if red(&ly) == red(lq) {
                        let l = lin_wrap(ly, w, dom);
                        let r = (if nd(y).w == w { y } else { lin_build(&l, w) }, Some(l));
                        memo.insert(x, r.clone());
                        return r;
                    }
                }
            }
            let l = match (&p.1, &q.1) { (Some(a), Some(b)) if lw < 120 && b.exact => Some(lin_add(&lin_scale(a, 1i128 << lw), b)), _ => None };
            (mk_concat(p.0, q.0), l)
        }
        Op::Extract => {
            let p = f(n.a);
            let k = n.k as u32;
            let l = p.1.as_ref().and_then(|a| {
                if k == 0 { return Some(a.clone()); }
                let (lo, hi) = lin_range(a, dom)?;
                if k < 120 && lo >= 0 && lo >> k == hi >> k { kon(lo >> k) } else { None }
            });
            (mk_extract(p.0, k, w), l)
        }
        Op::Not => { let p = f(n.a); (mk_not(p.0), None) }
        Op::And => { let (p, q) = (f(n.a), f(n.b)); (mk_and(p.0, q.0), None) }
        Op::Or => { let (p, q) = (f(n.a), f(n.b)); (mk_or(p.0, q.0), None) }
        Op::Xor => { let (p, q) = (f(n.a), f(n.b)); (mk_xor(p.0, q.0), None) }
        Op::Ite => {
            let p = f(n.a);
            match konst(p.0) { Some(1) => f(n.b), Some(_) => f(n.c), None => { let (q, r) = (f(n.b), f(n.c)); (mk_ite(p.0, q.0, r.0), None) } }
        }
        Op::Eq | Op::Ult => {
            let (p, q) = (f(n.a), f(n.b));
            let nonneg = |l: &Option<Lin>| l.as_ref().and_then(|l| lin_range(l, dom)).map_or(false, |r| r.0 >= 0);
            let d = if nonneg(&p.1) && nonneg(&q.1) { two(&p.1, &q.1, -1).and_then(|d| lin_range(&d, dom)) } else { None };
            // a sum that may wrap, compared with its own part: has it wrapped?
            if n.op == Op::Ult && nd(p.0).w < 120 {
                if let (Some(a), Some(b)) = (&p.1, &q.1) {
                    let pw = nd(p.0).w;
                    let diff = lin_wrap(lin_add(&lin_scale(a, -1), b), pw, dom);
                    if diff.c.is_empty() && nonneg(&q.1) {
                        // p = q + c (mod 2^pw), 0 < c: p < q exactly when q >= 2^pw - c
                        let c = (diff.k as u128).wrapping_neg() & mask(pw);
                        let y = if c == 0 { fls() } else { f(mk_not(mk_ult(q.0, cst(mask(pw) - c + 1, pw)))).0 };
                        memo.insert(x, (y, None));
                        return (y, None);
                    }
                }
            }
            if n.op == Op::Ult && is_ones(p.0) { return (fls(), None); }
            // a sum equal to its least or greatest value: every variable is at its end
            if n.op == Op::Eq {
                if let Some((lo, hi)) = d {
                    if (lo == 0) != (hi == 0) {
                        let l = two(&p.1, &q.1, -1).unwrap();
                        let mut y = tru();
                        for &(v, c) in &l.c { let (a, b) = dom(v); y = mk_and(y, mk_eq(var(v), cst(if (c > 0) == (lo == 0) { a } else { b } as u128, 8))); }
                        memo.insert(x, (y, None));
                        return (y, None);
                    }
                }
            }
            let y = match d {
                Some((lo, hi)) if n.op == Op::Eq && (lo > 0 || hi < 0) => fls(),
                Some((0, 0)) if n.op == Op::Eq => tru(),
                Some((lo, _)) if n.op == Op::Ult && lo >= 0 => fls(),
                Some((_, hi)) if n.op == Op::Ult && hi < 0 => tru(),
                _ => if n.op == Op::Eq { mk_eq(p.0, q.0) } else { mk_ult(p.0, q.0) },
            };
            (y, None)
        }
        _ => (x, None),
    };
    let r = match l {
        Some(l) if w <= 128 => { let l = lin_wrap(l, w, dom); (lin_build(&l, w), Some(l)) }
        _ => (y, None),
    };
    memo.insert(x, r.clone());
    r
}
