use crate::{gen, rt, spec};
use ethabi::ParamType as T;

/// decoding gives exactly what the reference decoder gives
pub fn agree(ts: &[T], data: &[u8]) {
	let got = ethabi::decode(ts, data);
	rt::reach(got.is_ok() as u64);
	if data.is_empty() && !ts.is_empty() {
		check!(got.is_err(), "values decoded from no data");
		return;
	}
	let mut d = spec::Dec { data, fuel: 2000, exhausted: false };
	let want = d.list(ts, 0);
	if d.exhausted {
		return;
	}
	match (got, want) {
		(Ok(g), Some(w)) => {
			check!(spec::conform(&g, ts), "decoded values do not conform to the types");
			check!(spec::toks_eq(&g, &w), "decoded values are not the ones in the data");
		}
		(Err(_), None) => {}
		(Ok(_), None) => check!(false, "values decoded from data that does not hold them"),
		(Err(_), Some(_)) => check!(false, "well-formed data rejected"),
	}
}

harness! {
/// every list of up to 2 type nodes (12 elementary types, fixed arrays of 1 and 2) on every byte string of 0, 1, 31..33, 63..65, 96, 97, 128 bytes; texts restricted to ASCII
fn c04_two() {
	let n = rt::choose(3);
	let ts = gen::list(n, gen::ALL, &[1, 2]);
	rt::ascii(true);
	let n = rt::pick(&[0usize, 1, 31, 32, 33, 63, 64, 65, 96, 97, 128]);
	let data = rt::bytes(n);
	agree(&ts, &data);
}
/// every list of 3 type nodes over one elementary type per layout class, on every byte string of 64, 96 and 100 bytes
fn c04_three() {
	let ts = gen::list(3, gen::FEW, &[1, 2]);
	rt::ascii(true);
	let n = rt::pick(&[64usize, 96, 100]);
	let data = rt::bytes(n);
	agree(&ts, &data);
}
/// every list of 3 type nodes, on every byte string of 128 and 160 bytes
fn c04_three_t() {
	let ts = gen::list(3, gen::FEW, &[2]);
	rt::ascii(true);
	let n = rt::pick(&[128usize, 160]);
	let data = rt::bytes(n);
	agree(&ts, &data);
}
/// encodings of values (byte strings of 33 bytes, arrays of 2) of every list of up to 3 type nodes with any one word replaced by anything, whole or cut by 1 or 33 bytes
fn c04_corrupt() {
	let n = 1 + rt::choose(3);
	let ts = gen::list(n, &["bytes5", "bytes"], &[2]);
	let data = gen::corrupt(&ts, &[&[33]], &[&[2]], &[0, 1, 33], false);
	agree(&ts, &data);
}
/// encodings of zero values of every list of 4 type nodes with any one word replaced by anything
fn c04_corrupt4() {
	let ts = gen::list(4, gen::TWO, &[2]);
	let data = gen::corrupt(&ts, &[&[1]], &[&[1]], &[0], false);
	agree(&ts, &data);
}
/// encodings with symbolic contents of every list of up to 4 type nodes with any one word replaced by anything, whole or cut by 1, 31, 32 or 33 bytes
fn c04_corrupt_t() {
	let n = 1 + rt::choose(4);
	let ts = gen::list(n, &["uint256", "bytes5", "bytes"], &[2]);
	let data = gen::corrupt(&ts, &[&[1], &[33]], &[&[1], &[2]], &[0, 1, 31, 32, 33], true);
	agree(&ts, &data);
}
/// encodings with all contents symbolic of every list of 4 type nodes over one elementary type per layout class: every word where it belongs
fn c04_valid() {
	let ts = gen::list(4, gen::FEW, &[2]);
	let v = gen::shape(&[&[0], &[33, 1]], &[&[0], &[1], &[3, 2]]).values(&ts);
	let mut e = spec::enc(&v);
	// bytes after the end do not matter
	let extra = rt::pick(&[0usize, 5, 32]);
	e.extend_from_slice(&rt::bytes(extra));
	match ethabi::decode(&ts, &e) {
		Ok(g) => {
			rt::reach(1);
			check!(spec::toks_eq(&g, &v), "decoded values are not the ones in the data")
		}
		Err(_) => check!(false, "well-formed data rejected"),
	}
}
/// fixed bytes of every size up to 2^64-1 and fixed arrays of every length, on every byte string of up to 97 bytes
fn c04_sizes() {
	let k = u64::from_le_bytes(rt::arr()) as usize;
	rt::assume(k > 0);
	let n = rt::pick(&[31usize, 32, 33, 64, 97]);
	let data = rt::bytes(n);
	let ts = match rt::choose(3) {
		0 => vec![T::FixedBytes(k)],
		1 => vec![T::Address, T::FixedBytes(k), T::Address],
		_ => vec![T::FixedArray(Box::new(T::Uint(256)), k)],
	};
	let got = ethabi::decode(&ts, &data);
	rt::reach(got.is_ok() as u64);
	let fits = match rt::conc(ts.len()) {
		3 => n >= 32 && k <= n - 32 && (k + 31) / 32 * 32 <= n && n - (k + 31) / 32 * 32 >= 64,
		_ => match &ts[0] {
			T::FixedBytes(_) => k <= n,
			_ => k <= n / 32,
		},
	};
	check!(got.is_ok() == fits, "accepted exactly when the data holds the values");
	if let Ok(v) = got {
		let k = rt::conc(k);
		match (&v[0], ts.len()) {
			(ethabi::Token::FixedBytes(b), 1) => check!(b.len() == k && rt::same(b, &data[..k]), "fixed bytes content"),
			(ethabi::Token::FixedArray(a), _) => check!(a.len() == k && a.iter().enumerate().all(|(i, x)| spec::tok_eq(x, &ethabi::Token::Uint(spec::uint_of(&data[32 * i..])))), "fixed array content"),
			(ethabi::Token::Address(a), _) => {
				check!(rt::same(&a.0, &data[12..32]), "address before");
				check!(matches!(&v[1], ethabi::Token::FixedBytes(b) if b.len() == k && rt::same(b, &data[32..32 + k])), "fixed bytes content");
				let at = 32 + (k + 31) / 32 * 32;
				check!(matches!(&v[2], ethabi::Token::Address(a) if rt::same(&a.0, &data[at + 12..at + 32])), "address after");
			}
			_ => check!(false, "kind of value"),
		}
	}
}
/// texts of up to 4 arbitrary bytes, valid UTF-8 or not, and of 5 and 6 bytes after a fixed start: the text is the lossy reading of the bytes
fn c04_utf8() {
	let n = rt::choose(5);
	let mut b = rt::pick(&[&b""[..], "\u{e9}".as_bytes(), b"\xff", b"\xf0\x9f"]).to_vec();
	b.extend_from_slice(&rt::bytes(n));
	let mut data = vec![];
	data.extend_from_slice(&spec::num_word(32));
	data.extend_from_slice(&spec::num_word(b.len()));
	data.extend_from_slice(&b);
	match ethabi::decode(&[T::String], &data) {
		Ok(v) => {
			rt::reach(1);
			match &v[..] {
				[ethabi::Token::String(s)] => {
					// valid UTF-8 must come out unchanged; anything else as valid text
					if let Ok(u) = std::str::from_utf8(&b) {
						check!(rt::same(u.as_bytes(), s.as_bytes()), "valid text changed");
					} else {
						check!(spec::lossy(&b) == *s, "invalid text read differently");
					}
				}
				_ => check!(false, "kind of value"),
			}
		}
		Err(_) => check!(false, "text rejected"),
	}
}
/// data of 2^16+64 and 2^24+64 bytes with offsets around 2^16, 2^24, the end of the data and 2^32, and any length word there
fn c04_far() {
	rt::alloc_limit(1 << 27);
	let n = rt::pick(&[1usize << 16, 1 << 24]) + 64;
	let off = rt::pick(&[0, 32, 65535, 65536, (1 << 24) - 32, 1 << 24, (1 << 24) + 1, n - 64, n - 32, n - 31, n, (1 << 32) - 33, (1 << 32) - 1]);
	let lists: &[&str] = if n < 1 << 20 { &["(bytes)", "(bytes[1])", "((bool,bytes))", "(bytes[])", "(uint8[])"] } else { &["(bytes)", "(bytes[1])", "((bool,bytes))"] };
	let ts = spec::tys(rt::pick(lists));
	let mut data = vec![0u8; n];
	data[..32].copy_from_slice(&spec::num_word(off));
	if off + 32 <= n {
		let w = rt::arr::<32>();
		let len = u32::from_be_bytes([w[28], w[29], w[30], w[31]]) as usize;
		rt::assume(len < 3 || len > n - 2);
		data[off..off + 32].copy_from_slice(&w);
	}
	agree(&ts, &data);
}
/// nesting depth 1..=8 of arrays, fixed arrays and tuples on data of depth+2 words whose offsets are 0, 32 or out of bounds
fn c04_deep() {
	let depth = 1 + rt::choose(8);
	let kind = rt::choose(4);
	let mut t = spec::ty(rt::pick(&["uint256", "bytes"]));
	for i in 0..depth {
		t = match (kind, i % 2) {
			(0, _) | (3, 0) => T::Array(Box::new(t)),
			(1, _) => T::Tuple(vec![t]),
			(2, _) => T::FixedArray(Box::new(t), 1),
			_ => T::Tuple(vec![T::Bool, t]),
		};
	}
	let mut data = vec![];
	for _ in 0..depth + 2 {
		let mut w = [0u8; 32];
		let x = rt::arr::<2>();
		rt::assume(x[0] == 0 || x[0] == 1);
		rt::assume(x[1] == 0 || x[1] == 32);
		w[27] = x[0];
		w[31] = x[1];
		data.extend_from_slice(&w);
	}
	agree(&[t], &data);
}
/// lists, tuples, fixed arrays and arrays of 1 to 65 zero values (of a static, a dynamic or a composite type), with one word of the encoding (any of the first 6 or last 2, or the middle one) changed in its upper 30 bytes to anything or in its lowest byte to 0, 1, 2, 31, 32, 33, 64 or 255, whole or cut by a byte
fn c04_many() {
	let n = rt::pick(&[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 40, 64, 65]);
	let e = spec::ty(rt::pick(&["bytes5", "bytes", "(bool,string)", "bool[2]"]));
	let mut sh = gen::shape(&[&[3]], &[&[2]]);
	sh.zero = true;
	let (ts, v) = match rt::choose(4) {
		0 => (vec![e.clone(); n], vec![sh.value(&e); n]),
		1 => (vec![T::Tuple(vec![e.clone(); n])], vec![ethabi::Token::Tuple(vec![sh.value(&e); n])]),
		2 => (vec![T::FixedArray(Box::new(e.clone()), n)], vec![ethabi::Token::FixedArray(vec![sh.value(&e); n])]),
		_ => (vec![T::Array(Box::new(e.clone()))], vec![ethabi::Token::Array(vec![sh.value(&e); n])]),
	};
	let mut data = spec::enc(&v);
	let words = data.len() / 32;
	let k = rt::choose(9);
	let w = match k {
		0..=5 => k,
		6 => words / 2,
		_ => (words + 6).saturating_sub(k),
	};
	rt::assume(w < words);
	let i = 32 * w;
	if rt::choose(2) == 0 {
		data[i..i + 30].copy_from_slice(&rt::arr::<30>());
	} else {
		data[i + 31] = gen::over(1, &[0, 1, 2, 31, 32, 33, 64, 255])[0];
	}
	let cut = rt::choose(2);
	let m = data.len() - cut;
	rt::ascii(true);
	agree(&ts, &data[..m]);
}
/// lists and tuples (alone, and as elements of an array) of 1..=24, 32 or 33 components that are all the same but one, at every place; symbolic values, whole or cut by one byte
fn c04_odd() {
	let ts = gen::odd();
	let ts = match rt::choose(3) {
		0 => ts,
		1 => vec![T::Tuple(ts), T::String],
		_ => vec![T::Array(Box::new(T::Tuple(ts))), T::Bool],
	};
	let v: Vec<ethabi::Token> = ts.iter().map(|t| gen::sized(t, 3, 1)).collect();
	let mut d = spec::enc(&v);
	d.truncate(d.len() - rt::choose(2));
	rt::ascii(true);
	agree(&ts, &d);
}
/// numbers of every declared width (any 64-bit number), alone and in arrays and tuples: arbitrary data of 32, 64 and 96 bytes, and encodings of arbitrary values
fn c04_widths() {
	let ts = gen::wides();
	rt::ascii(true);
	let data = match rt::choose(4) {
		3 => spec::enc(&ts.iter().map(|t| gen::sized(t, 3, 2)).collect::<Vec<_>>()),
		i => rt::bytes(32 + 32 * i),
	};
	agree(&ts, &data);
}
/// the encoding of one large value (gen::huge: byte strings of 300 to 100000 bytes, arrays, fixed arrays, tuples and lists of 300 to 4097 values), alone or between others, whole, with surplus bytes, or cut by 1, 32 or 64 bytes
fn c04_huge() {
	let (ts, v) = gen::huge();
	let mut e = spec::enc(&v);
	let n = e.len();
	let cut = rt::choose(5);
	match cut {
		0 => {}
		1 => e.extend_from_slice(&[0xff; 33]),
		2 => e.truncate(n - 1),
		3 => e.truncate(n - 32),
		_ => e.truncate(n - 64),
	}
	let got = ethabi::decode(&ts, &e);
	rt::reach(got.is_ok() as u64);
	match got {
		Ok(g) => check!(cut < 2 && spec::toks_eq(&g, &v) || cut == 2, "decoded values are not the ones in the data"),
		Err(_) => check!(cut > 1, "well-formed data rejected"),
	}
}
}
