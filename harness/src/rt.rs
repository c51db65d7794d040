//! Interface to the engine (symbolic build) or to the replayer (native build).
mod ffi {
	extern "C" {
		pub fn sym_bytes(p: *mut u8, n: usize);
		pub fn sym_choice(n: u64) -> u64;
		pub fn sym_assume(c: bool);
		pub fn sym_assert(c: bool, id: u64);
		pub fn sym_reach(id: u64);
		pub fn sym_keccak(p: *const u8, n: usize, out: *mut u8);
		pub fn sym_conc(v: u64) -> u64;
		pub fn sym_alloc_reset();
		pub fn sym_alloc_total() -> u64;
		pub fn sym_alloc_peak() -> u64;
		pub fn sym_alloc_max() -> u64;
		pub fn sym_alloc_limit(n: u64);
		pub fn sym_observe(p: *const u8, n: usize);
		pub fn sym_nomerge(f: u64);
		pub fn sym_print(p: *const u8, n: usize);
		pub fn sym_done();
		pub fn sym_same(p: *const u8, q: *const u8, n: usize) -> bool;
		pub fn sym_opt(k: u64, v: u64);
	}
}
/// n unconstrained bytes
#[inline(never)]
pub fn bytes(n: usize) -> Vec<u8> {
	let mut v = vec![0u8; n];
	if n > 0 {
		unsafe { ffi::sym_bytes(v.as_mut_ptr(), n) }
	}
	v
}
#[inline(never)]
pub fn arr<const N: usize>() -> [u8; N] {
	let mut v = [0u8; N];
	unsafe { ffi::sym_bytes(v.as_mut_ptr(), N) }
	v
}
/// an unconstrained choice among 0..n, enumerated by forking
#[inline(never)]
pub fn choose(n: usize) -> usize {
	if n <= 1 {
		return 0;
	}
	unsafe { ffi::sym_choice(n as u64) as usize }
}
pub fn pick<T: Copy>(xs: &[T]) -> T {
	xs[choose(xs.len())]
}
pub fn assume(c: bool) {
	unsafe { ffi::sym_assume(c) }
}
#[inline(never)]
pub fn assert_at(c: bool, line: u32, _msg: &'static str) {
	#[cfg(feature = "native")]
	if !c {
		eprintln!("assertion at line {}: {}", line, _msg);
	}
	unsafe { ffi::sym_assert(c, line as u64) }
}
/// equality of contents, as one formula for the solver
pub fn same(a: &[u8], b: &[u8]) -> bool {
	a.len() == b.len() && (a.is_empty() || unsafe { ffi::sym_same(a.as_ptr(), b.as_ptr(), a.len()) })
}
pub fn reach(id: u64) {
	unsafe { ffi::sym_reach(id) }
}
pub fn keccak(d: &[u8]) -> [u8; 32] {
	let mut out = [0u8; 32];
	unsafe { ffi::sym_keccak(d.as_ptr(), d.len(), out.as_mut_ptr()) }
	out
}
pub fn conc(v: usize) -> usize {
	unsafe { ffi::sym_conc(v as u64) as usize }
}
pub fn alloc_reset() {
	unsafe { ffi::sym_alloc_reset() }
}
pub fn alloc_total() -> u64 {
	unsafe { ffi::sym_alloc_total() }
}
pub fn alloc_peak() -> u64 {
	unsafe { ffi::sym_alloc_peak() }
}
pub fn alloc_max() -> u64 {
	unsafe { ffi::sym_alloc_max() }
}
pub fn alloc_limit(n: u64) {
	unsafe { ffi::sym_alloc_limit(n) }
}
pub fn observe(b: &[u8]) {
	unsafe { ffi::sym_observe(b.as_ptr(), b.len()) }
}
pub fn nomerge(on: bool) {
	unsafe { ffi::sym_nomerge(on as u64) }
}
/// from here on, texts converted from bytes are restricted to ASCII (symbolic build only)
pub fn ascii(on: bool) {
	unsafe { ffi::sym_opt(1, on as u64) }
}
/// keep linear terms in a canonical form while executing (symbolic build only)
pub fn linear(on: bool) {
	unsafe { ffi::sym_opt(3, on as u64) }
}
/// other keys for the hash maps made from here on, hence other iteration orders (symbolic build only)
pub fn hash_seed(n: usize) {
	unsafe { ffi::sym_opt(2, n as u64) }
}
pub fn print(s: &str) {
	unsafe { ffi::sym_print(s.as_ptr(), s.len()) }
}
/// end this path here (nothing after it is of interest)
pub fn done() {
	unsafe { ffi::sym_done() }
}

#[macro_export]
macro_rules! check {
	($c:expr, $m:expr) => {
		$crate::rt::assert_at($c, line!(), $m)
	};
}
#[macro_export]
macro_rules! harness {
	($($(#[$a:meta])* fn $name:ident() $body:block)*) => {
		$( $(#[$a])* #[no_mangle] pub extern "C" fn $name() $body )*
		pub const TABLE: &[(&str, extern "C" fn())] = &[ $((stringify!($name), $name)),* ];
	};
}
