use crate::{gen, rt, spec};
use ethabi::ParamType as T;

fn total(ts: &[T], data: &[u8]) {
	let r = ethabi::decode(ts, data);
	rt::reach(r.is_ok() as u64);
	if let Ok(v) = &r {
		check!(v.len() == ts.len(), "one value per type");
	}
}

harness! {
/// every list of up to 2 type nodes (12 elementary types, fixed arrays of 0 to 2) on every byte string of 0, 1, 31..33, 63..65, 96, 97, 128 bytes; texts restricted to ASCII
fn c03_two() {
	let n = rt::choose(3);
	let ts = gen::list(n, gen::ALL, &[0, 1, 2]);
	rt::assume(!gen::zero_array(&ts));
	rt::ascii(true);
	let n = rt::pick(&[0usize, 1, 31, 32, 33, 63, 64, 65, 96, 97, 128]);
	let data = rt::bytes(n);
	total(&ts, &data);
}
/// every list of 3 type nodes over one elementary type per layout class, on every byte string of 64, 96 and 100 bytes
fn c03_three() {
	let ts = gen::list(3, gen::FEW, &[1, 2]);
	rt::ascii(true);
	let n = rt::pick(&[64usize, 96, 100]);
	let data = rt::bytes(n);
	total(&ts, &data);
}
/// every list of 3 type nodes, on every byte string of 128 and 160 bytes
fn c03_three_t() {
	let ts = gen::list(3, gen::FEW, &[2]);
	rt::ascii(true);
	let n = rt::pick(&[128usize, 160]);
	let data = rt::bytes(n);
	total(&ts, &data);
}
/// encodings of zero values (byte strings of 33 bytes, arrays of 2) of every list of up to 3 type nodes with any one word replaced by anything, whole or cut by 1 or 33 bytes
fn c03_corrupt() {
	let n = 1 + rt::choose(3);
	let ts = gen::list(n, &["bytes5", "bytes"], &[2]);
	let data = gen::corrupt(&ts, &[&[33]], &[&[2]], &[0, 1, 33], false);
	total(&ts, &data);
}
/// encodings of zero values of every list of 4 type nodes with any one word replaced by anything
fn c03_corrupt4() {
	let ts = gen::list(4, gen::TWO, &[2]);
	let data = gen::corrupt(&ts, &[&[1]], &[&[1]], &[0], false);
	total(&ts, &data);
}
/// the same with all contents symbolic
fn c03_corrupt_t() {
	let n = 1 + rt::choose(4);
	let ts = gen::list(n, &["uint256", "bytes5", "bytes"], &[2]);
	let data = gen::corrupt(&ts, &[&[1], &[33]], &[&[1], &[2]], &[0, 1, 31, 32, 33], true);
	total(&ts, &data);
}
/// function input and output decoding on every byte string up to 100 bytes gives what plain decoding gives
fn c03_function() {
	let ts = spec::tys(rt::pick(&["()", "(uint8)", "(bool,address)", "(bytes)", "(uint8[],bool)", "((bytes,int8))", "(bytes[1])"]));
	let us = spec::tys(rt::pick(&["()", "(bool)", "(bytes)", "(bool[2])"]));
	let p = |ts: &[T]| ts.iter().map(|t| ethabi::Param { name: String::new(), kind: t.clone(), internal_type: None }).collect::<Vec<_>>();
	let f = ethabi::Function { name: "f".into(), inputs: p(&ts), outputs: p(&us), constant: false, state_mutability: Default::default() };
	let n = rt::pick(&[0usize, 4, 32, 64, 100]);
	let data = rt::bytes(n);
	let (got, want) = if rt::choose(2) == 0 { (f.decode_input(&data), ethabi::decode(&ts, &data)) } else { (f.decode_output(&data), ethabi::decode(&us, &data)) };
	rt::reach(got.is_ok() as u64);
	match (got, want) {
		(Ok(a), Ok(b)) => check!(spec::toks_eq(&a, &b), "values differ"),
		(Err(_), Err(_)) => {}
		_ => check!(false, "success differs"),
	}
}
/// fixed bytes of every size up to 2^64-1 and fixed arrays of every length up to 2^64-1, at several positions, on every byte string of up to 97 bytes
fn c03_sizes() {
	let k = u64::from_le_bytes(rt::arr()) as usize;
	let n = rt::pick(&[0usize, 31, 32, 33, 64, 97]);
	let data = rt::bytes(n);
	let ts = match rt::choose(5) {
		0 => vec![T::FixedBytes(k)],
		1 => vec![T::Bool, T::FixedBytes(k), T::Bool],
		2 => vec![T::Array(Box::new(T::FixedBytes(k)))],
		3 => {
			rt::assume(k > 0);
			vec![T::FixedArray(Box::new(T::Uint(256)), k)]
		}
		_ => {
			rt::assume(k > 0);
			vec![T::FixedArray(Box::new(T::Bytes), k), T::Bool]
		}
	};
	if let T::Array(_) = ts[0] {
		rt::assume(k > 0);
	}
	total(&ts, &data);
}
/// data of 2^16+64 and 2^24+64 bytes with offsets around 2^16, 2^24, the end of the data and 2^32, and any length word there
fn c03_far() {
	rt::alloc_limit(1 << 27);
	let n = rt::pick(&[1usize << 16, 1 << 24]) + 64;
	let off = rt::pick(&[0, 32, 65535, 65536, (1 << 24) - 32, 1 << 24, (1 << 24) + 1, n - 64, n - 32, n - 31, n, (1 << 32) - 33, (1 << 32) - 1]);
	let lists: &[&str] = if n < 1 << 20 { &["(bytes)", "(bytes[1])", "((bool,bytes))", "(bytes[])", "(uint8[])"] } else { &["(bytes)", "(bytes[1])", "((bool,bytes))"] };
	let ts = spec::tys(rt::pick(lists));
	let mut data = vec![0u8; n];
	data[..32].copy_from_slice(&spec::num_word(off));
	if off + 32 <= n {
		let w = rt::arr::<32>();
		// no more elements or bytes than a few, or more than there are
		let len = u32::from_be_bytes([w[28], w[29], w[30], w[31]]) as usize;
		rt::assume(len < 3 || len > n - 2);
		data[off..off + 32].copy_from_slice(&w);
	}
	total(&ts, &data);
}
/// texts of up to 3 arbitrary bytes, valid UTF-8 or not, alone and in an array
fn c03_utf8() {
	let n = rt::choose(4);
	let b = rt::bytes(n);
	let mut data = vec![];
	let ts = match rt::choose(2) {
		0 => {
			data.extend_from_slice(&spec::num_word(32));
			vec![T::String]
		}
		_ => {
			data.extend_from_slice(&spec::num_word(32));
			data.extend_from_slice(&spec::num_word(1));
			data.extend_from_slice(&spec::num_word(32));
			vec![T::Array(Box::new(T::String))]
		}
	};
	data.extend_from_slice(&spec::num_word(n));
	data.extend_from_slice(&b);
	total(&ts, &data);
}
/// nesting depth 1..=8 of arrays, fixed arrays and tuples on symbolic data of depth+2 words whose offsets are 0, 32 or out of bounds
fn c03_deep() {
	let depth = 1 + rt::choose(8);
	let kind = rt::choose(4);
	let mut t = spec::ty(rt::pick(&["uint256", "bytes"]));
	for i in 0..depth {
		t = match (kind, i % 2) {
			(0, _) | (3, 0) => T::Array(Box::new(t)),
			(1, _) => T::Tuple(vec![t]),
			(2, _) => T::FixedArray(Box::new(t), 1),
			_ => T::Tuple(vec![T::Bool, t]),
		};
	}
	let mut data = vec![];
	for _ in 0..depth + 2 {
		let mut w = [0u8; 32];
		let x = rt::arr::<2>();
		rt::assume(x[0] == 0 || x[0] == 1);
		rt::assume(x[1] == 0 || x[1] == 32);
		w[27] = x[0];
		w[31] = x[1];
		data.extend_from_slice(&w);
	}
	total(&[t], &data);
}
/// lists, tuples, fixed arrays and arrays of 1 to 65 zero values (of a static, a dynamic or a composite type), with one word of the encoding (any of the first 6 or last 2, or the middle one) changed in its upper 30 bytes to anything or in its lowest byte to 0, 1, 2, 31, 32, 33, 64 or 255, whole or cut by a byte
fn c03_many() {
	let n = rt::pick(&[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 40, 64, 65]);
	let e = spec::ty(rt::pick(&["bytes5", "bytes", "(bool,string)", "bool[2]"]));
	let mut sh = gen::shape(&[&[3]], &[&[2]]);
	sh.zero = true;
	let (ts, v) = match rt::choose(4) {
		0 => (vec![e.clone(); n], vec![sh.value(&e); n]),
		1 => (vec![T::Tuple(vec![e.clone(); n])], vec![ethabi::Token::Tuple(vec![sh.value(&e); n])]),
		2 => (vec![T::FixedArray(Box::new(e.clone()), n)], vec![ethabi::Token::FixedArray(vec![sh.value(&e); n])]),
		_ => (vec![T::Array(Box::new(e.clone()))], vec![ethabi::Token::Array(vec![sh.value(&e); n])]),
	};
	let mut data = spec::enc(&v);
	let words = data.len() / 32;
	let k = rt::choose(9);
	let w = match k {
		0..=5 => k,
		6 => words / 2,
		_ => (words + 6).saturating_sub(k),
	};
	rt::assume(w < words);
	let i = 32 * w;
	if rt::choose(2) == 0 {
		data[i..i + 30].copy_from_slice(&rt::arr::<30>());
	} else {
		data[i + 31] = gen::over(1, &[0, 1, 2, 31, 32, 33, 64, 255])[0];
	}
	let cut = rt::choose(2);
	let m = data.len() - cut;
	rt::ascii(true);
	total(&ts, &data[..m]);
}
/// number types of every declared width, alone and in arrays and tuples, on arbitrary data of 0, 31, 32, 64 and 96 bytes
fn c03_widths() {
	let ts = gen::wides();
	let n = rt::pick(&[0usize, 31, 32, 64, 96]);
	let data = rt::bytes(n);
	rt::ascii(true);
	let r = ethabi::decode(&ts, &data);
	rt::reach(r.is_ok() as u64);
}
}
