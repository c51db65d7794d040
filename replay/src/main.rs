//! Runs one harness natively on a recorded input (a counterexample or a sampled path).
//! usage: replay HARNESS INPUT      INPUT: c<choice>; and b<hex>; in the order of the calls
//! Exit code: 0 fine, 10 assertion failed, 11 panic, 12 allocation above the limit, 13 assumption not met,
//! 14 input does not fit the run. Observations go to stdout.
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

static LIVE: AtomicU64 = AtomicU64::new(0);
static BASE: AtomicU64 = AtomicU64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
static MAX: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(16 << 20);
static ON: AtomicBool = AtomicBool::new(false);

struct A;
fn grow(n: u64) {
	if !ON.load(SeqCst) {
		return;
	}
	if n > LIMIT.load(SeqCst) {
		die(12, "allocation above the limit");
	}
	let l = LIVE.fetch_add(n, SeqCst) + n;
	if l > 1 << 30 {
		die(12, "more than 1 GiB in use");
	}
	TOTAL.fetch_add(n, SeqCst);
	PEAK.fetch_max(l, SeqCst);
	MAX.fetch_max(n, SeqCst);
}
fn shrink(n: u64) {
	if ON.load(SeqCst) {
		let _ = LIVE.fetch_update(SeqCst, SeqCst, |l| Some(l.saturating_sub(n)));
	}
}
unsafe impl GlobalAlloc for A {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		grow(l.size() as u64);
		System.alloc(l)
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		grow(l.size() as u64);
		System.alloc_zeroed(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		shrink(l.size() as u64);
		System.dealloc(p, l)
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		grow(n as u64);
		shrink(l.size() as u64);
		System.realloc(p, l, n)
	}
}
#[global_allocator]
static GLOBAL: A = A;

fn die(code: i32, msg: &str) -> ! {
	ON.store(false, SeqCst);
	LIMIT.store(u64::MAX, SeqCst);
	eprintln!("{}", msg);
	let _ = std::io::stdout().flush();
	unsafe { libc_exit(code) }
}
extern "C" {
	#[link_name = "_exit"]
	fn libc_exit(c: i32) -> !;
}

static INPUT: Mutex<(String, usize)> = Mutex::new((String::new(), 0));
fn next(kind: char) -> String {
	let mut g = INPUT.lock().unwrap();
	let (s, at) = (&g.0, g.1);
	let rest = &s[at..];
	let end = match rest.find(';') {
		Some(e) => e,
		None => die(14, "input exhausted"),
	};
	let item = rest[..end].to_string();
	g.1 = at + end + 1;
	if !item.starts_with(kind) {
		drop(g);
		die(14, "input of another kind expected");
	}
	item[1..].to_string()
}
#[no_mangle]
extern "C" fn sym_bytes(p: *mut u8, n: usize) {
	let on = ON.swap(false, SeqCst);
	let h = next('b');
	if h.len() != 2 * n {
		die(14, "byte count differs");
	}
	for i in 0..n {
		unsafe { *p.add(i) = u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap() }
	}
	drop(h);
	ON.store(on, SeqCst);
}
#[no_mangle]
extern "C" fn sym_choice(_n: u64) -> u64 {
	let on = ON.swap(false, SeqCst);
	let v = next('c').parse().unwrap();
	ON.store(on, SeqCst);
	v
}
#[no_mangle]
extern "C" fn sym_assume(c: bool) {
	if !c {
		die(13, "assumption not met");
	}
}
#[no_mangle]
extern "C" fn sym_assert(c: bool, id: u64) {
	if !c {
		die(10, &format!("ASSERTION FAILED at line {}", id));
	}
}
#[no_mangle]
extern "C" fn sym_reach(_: u64) {}
#[no_mangle]
extern "C" fn sym_keccak(p: *const u8, n: usize, out: *mut u8) {
	use sha3::Digest;
	let d = sha3::Keccak256::digest(unsafe { std::slice::from_raw_parts(p, n) });
	unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), out, 32) }
}
#[no_mangle]
extern "C" fn sym_conc(v: u64) -> u64 {
	v
}
#[no_mangle]
extern "C" fn sym_alloc_reset() {
	BASE.store(LIVE.load(SeqCst), SeqCst);
	TOTAL.store(0, SeqCst);
	PEAK.store(LIVE.load(SeqCst), SeqCst);
	MAX.store(0, SeqCst);
	ON.store(true, SeqCst);
}
#[no_mangle]
extern "C" fn sym_alloc_total() -> u64 {
	TOTAL.load(SeqCst)
}
#[no_mangle]
extern "C" fn sym_alloc_peak() -> u64 {
	PEAK.load(SeqCst).saturating_sub(BASE.load(SeqCst))
}
#[no_mangle]
extern "C" fn sym_alloc_max() -> u64 {
	MAX.load(SeqCst)
}
#[no_mangle]
extern "C" fn sym_alloc_limit(n: u64) {
	LIMIT.store(n, SeqCst)
}
#[no_mangle]
extern "C" fn sym_observe(p: *const u8, n: usize) {
	let on = ON.swap(false, SeqCst);
	let b = unsafe { std::slice::from_raw_parts(p, n) };
	println!("obs {}", b.iter().map(|x| format!("{:02x}", x)).collect::<String>());
	ON.store(on, SeqCst);
}
#[no_mangle]
extern "C" fn sym_nomerge(_: u64) {}
#[no_mangle]
extern "C" fn sym_print(p: *const u8, n: usize) {
	eprintln!("[print] {}", String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }));
}
#[no_mangle]
extern "C" fn sym_same(p: *const u8, q: *const u8, n: usize) -> bool {
	unsafe { std::slice::from_raw_parts(p, n) == std::slice::from_raw_parts(q, n) }
}
#[no_mangle]
extern "C" fn sym_opt(_: u64, _: u64) {}
#[no_mangle]
extern "C" fn sym_done() {
	let _ = std::io::stdout().flush();
	unsafe { libc_exit(0) }
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	if a.len() < 3 {
		eprintln!("usage: replay HARNESS INPUT|@FILE");
		std::process::exit(64);
	}
	let input = match a[2].strip_prefix('@') {
		Some(f) => std::fs::read_to_string(f).unwrap().lines().filter(|l| !l.starts_with('#')).collect::<String>(),
		None => a[2].clone(),
	};
	INPUT.lock().unwrap().0 = input;
	let f = harness::tables().iter().flat_map(|t| t.iter()).find(|(n, _)| *n == a[1]).map(|x| x.1);
	let f = match f {
		Some(f) => f,
		None => die(65, "no such harness"),
	};
	std::panic::set_hook(Box::new(|i| {
		ON.store(false, SeqCst);
		eprintln!("PANIC {}", i);
		let _ = std::io::stdout().flush();
		unsafe { libc_exit(11) }
	}));
	// own thread: a bounded but generous stack, as the engine assumes
	ON.store(true, SeqCst);
	let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || f()).unwrap();
	h.join().unwrap();
}
