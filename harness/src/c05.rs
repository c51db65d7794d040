use crate::{gen, rt, spec};
use ethabi::ParamType as T;

/// bytes allocated while decoding, over all allocations, are at most `c` times the data plus `k`
fn bounded(ts: &[T], data: &[u8], c: u64, k: u64) {
	let bound = c * data.len() as u64 + k;
	rt::alloc_limit(bound);
	rt::alloc_reset();
	let r = ethabi::decode(ts, data);
	let total = rt::alloc_total();
	rt::reach(r.is_ok() as u64);
	check!(total <= bound, "memory allocated exceeds the bound");
}
/// no dynamic value inside a dynamic value
fn flat(t: &T) -> bool {
	match t {
		T::Array(e) => !spec::dynamic(e),
		T::FixedArray(e, _) => flat(e),
		T::Tuple(v) => v.iter().all(flat),
		_ => true,
	}
}

harness! {
/// every list of up to 2 type nodes on every byte string of 0, 1, 32, 64, 65, 96, 128 bytes: at most 16 bytes allocated per byte of data plus 2 KiB
fn c05_two() {
	let n = rt::choose(3);
	let ts = gen::list(n, gen::ALL, &[0, 1, 2]);
	rt::assume(!crate::gen::zero_array(&ts));
	rt::ascii(true);
	let n = rt::pick(&[0usize, 1, 32, 64, 65, 96, 128]);
	let data = rt::bytes(n);
	bounded(&ts, &data, 16, 2048);
}
/// every list of 3 type nodes over one elementary type per layout class, on every byte string of 64, 96 and 100 bytes: at most 16 bytes per byte plus 4 KiB
fn c05_three() {
	let ts = gen::list(3, gen::FEW, &[1, 2]);
	rt::ascii(true);
	let n = rt::pick(&[64usize, 96, 100]);
	let data = rt::bytes(n);
	bounded(&ts, &data, 16, 4096);
}
/// every list of 3 type nodes, on every byte string of 128 and 160 bytes
fn c05_three_t() {
	let ts = gen::list(3, gen::FEW, &[2]);
	rt::ascii(true);
	let n = rt::pick(&[128usize, 160]);
	let data = rt::bytes(n);
	bounded(&ts, &data, 16, 4096);
}
/// encodings of zero values (byte strings of 33 bytes, arrays of 2) of every list of up to 3 type nodes with any one word replaced by anything, whole or cut by 33 bytes: at most 64 bytes per byte plus 4 KiB
fn c05_corrupt() {
	let n = 1 + rt::choose(3);
	let ts = gen::list(n, &["bytes5", "bytes"], &[2]);
	let data = gen::corrupt(&ts, &[&[33]], &[&[2]], &[0, 33], false);
	bounded(&ts, &data, 64, 4096);
}
/// encodings of zero values of every list of 4 type nodes with any one word replaced by anything
fn c05_corrupt4() {
	let ts = gen::list(4, gen::TWO, &[2]);
	let data = gen::corrupt(&ts, &[&[1]], &[&[1]], &[0], false);
	bounded(&ts, &data, 64, 8192);
}
/// 1000, 4096 and 20000 bytes of data, types without dynamic values inside dynamic values, any claimed length up to 2^256-1 that is small (below 3), about what the data can back, or larger: at most 16 bytes per byte plus 2 KiB
fn c05_large() {
	let n = rt::pick(&[1000usize, 4096, 20000]);
	let ts = spec::tys(rt::pick(&["(uint8[])", "(bytes)", "(string)", "(bool[2][])", "((bool,address)[])", "(bytes32[],bool)", "((uint8[],bytes))", "(string[1])", "(bytes1[])", "((uint8[])[1])"]));
	rt::assume(ts.iter().all(flat));
	let mut data = vec![0u8; n];
	// offsets of 32 everywhere they can be needed; the claimed length comes where the last of them points
	let hops = match (&ts[0], &ts.len()) {
		(T::Tuple(_), _) | (T::FixedArray(..), _) => 2,
		_ => 1,
	};
	let mut at = 0;
	for _ in 0..hops {
		data[at..at + 32].copy_from_slice(&spec::num_word(32));
		at += 32;
	}
	if let T::FixedArray(e, _) = &ts[0] {
		if let T::Tuple(_) = **e {
			data[at..at + 32].copy_from_slice(&spec::num_word(32));
			at += 32;
		}
	}
	let w = rt::arr::<32>();
	let len = u32::from_be_bytes([w[28], w[29], w[30], w[31]]) as usize;
	let fit = (n - at - 32) / 32;
	let bytes = n - at - 32;
	rt::assume(len < 3 || (len + 2 > fit && len < fit + 3) || (len + 2 > bytes && len < bytes + 3) || len > n);
	data[at..at + 32].copy_from_slice(&w);
	bounded(&ts, &data, 16, 2048);
}
/// claimed offsets and lengths at several nesting levels at once: every word of the offset chain of nested arrays unconstrained above its low byte
fn c05_nested() {
	let ts = spec::tys(rt::pick(&["(bytes[])", "(uint8[][])", "((bytes,bool)[])", "(uint8[2][][])", "((string[])[])", "(bytes[][2])"]));
	let n = rt::pick(&[96usize, 128, 160]);
	let mut data = rt::bytes(n);
	let low = rt::pick(&[0u8, 1, 32, 255]);
	for i in 0..n / 32 {
		data[32 * i + 31] = if i == 0 { 32 } else { low };
	}
	bounded(&ts, &data, 64, 4096);
}
/// fixed bytes and fixed arrays of every declared size up to 2^64-1 on every byte string of up to 97 bytes: no allocation in proportion to the declared size either
fn c05_sizes() {
	let k = u64::from_le_bytes(rt::arr()) as usize;
	rt::assume(k > 0);
	let n = rt::pick(&[32usize, 33, 64, 97]);
	let data = rt::bytes(n);
	let ts = match rt::choose(4) {
		0 => vec![T::FixedBytes(k)],
		1 => vec![T::Array(Box::new(T::FixedBytes(k)))],
		2 => vec![T::FixedArray(Box::new(T::Uint(256)), k)],
		_ => vec![T::FixedArray(Box::new(T::Bytes), k), T::Bool],
	};
	bounded(&ts, &data, 16, 2048);
}
}
