//! Object memory: address = slot << 32 | offset; copy-on-write objects with per-byte terms.
use crate::expr::{self, X};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Vec<X>>, pub ro: bool, pub heap: bool }
impl Obj {
    pub fn new(n: usize, heap: bool) -> Obj { Obj { data: vec![0; n], sym: None, ro: false, heap } }
    #[inline]
    pub fn get(&self, o: usize) -> X { if let Some(s) = &self.sym { if s[o] != 0 { return s[o]; } } expr::cst(self.data[o] as u128, 8) }
    #[inline]
    pub fn is_sym(&self, o: usize, n: usize) -> bool { match &self.sym { None => false, Some(s) => s[o..o + n].iter().any(|&x| x != 0) } }
    #[inline]
    pub fn put(&mut self, o: usize, x: X) {
        match expr::konst(x) {
            Some(k) => { self.data[o] = k as u8; if let Some(s) = &mut self.sym { s[o] = 0; } }
            None => { let n = self.data.len(); self.sym.get_or_insert_with(|| vec![0; n])[o] = x; }
        }
    }
}
pub const HEAP0: u32 = 0x10_0000;

#[derive(Clone, Default)]
pub struct Mem {
    pub over: HashMap<u32, Rc<Obj>>,
    pub heap: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
}
impl Mem {
    pub fn alloc(&mut self, n: usize, heap: bool) -> u64 {
        let o = Rc::new(Obj::new(n, heap));
        let i = match self.free.pop() { Some(i) => { self.heap[i as usize] = Some(o); i } None => { self.heap.push(Some(o)); self.heap.len() as u32 - 1 } };
        ((HEAP0 + i) as u64) << 32
    }
    pub fn release(&mut self, addr: u64) {
        let s = (addr >> 32) as u32 - HEAP0;
        self.heap[s as usize] = None;
        self.free.push(s);
    }
    #[inline]
    pub fn obj<'a>(&'a self, base: &'a [Rc<Obj>], addr: u64) -> Option<&'a Rc<Obj>> {
        let s = (addr >> 32) as u32;
        if s >= HEAP0 { self.heap.get((s - HEAP0) as usize).and_then(|x| x.as_ref()) }
        else if s == 0 { None }
        else if let Some(o) = self.over.get(&s) { Some(o) }
        else { base.get(s as usize - 1) }
    }
    #[inline]
    pub fn obj_mut<'a>(&'a mut self, base: &[Rc<Obj>], addr: u64) -> Option<&'a mut Obj> {
        let s = (addr >> 32) as u32;
        if s >= HEAP0 { self.heap.get_mut((s - HEAP0) as usize).and_then(|x| x.as_mut()).map(Rc::make_mut) }
        else if s == 0 || s as usize > base.len() { None }
        else { Some(Rc::make_mut(self.over.entry(s).or_insert_with(|| base[s as usize - 1].clone()))) }
    }
}
