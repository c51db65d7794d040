use crate::{gen, rt, spec};
use ethabi::{ParamType as T, Token};

fn round(ts: &[T], v: &[Token]) {
	let e = ethabi::encode(v);
	rt::observe(&e);
	match ethabi::decode(ts, &e) {
		Ok(d) => {
			rt::reach(1);
			check!(spec::toks_eq(&d, v), "decoded values differ from the encoded ones")
		}
		Err(_) => check!(false, "the library's own encoding does not decode"),
	}
}

harness! {
/// every list of up to 3 type nodes over 12 elementary types, arrays, fixed arrays of 1 to 3, tuples; byte strings of 0, 1, 32 and mixed 0/31/33/64 bytes; arrays of 0, 1, 3 and mixed 0/1/2 elements; all contents symbolic
fn c01_small() {
	let n = 1 + rt::choose(3);
	let ts = gen::list(n, gen::ALL, &[1, 2, 3]);
	let v = gen::shape(gen::LENS, gen::COUNTS).values(&ts);
	round(&ts, &v);
}
/// every list of 4 type nodes over one elementary type per layout class; same lengths and counts
fn c01_four() {
	let ts = gen::list(4, gen::FEW, &[2]);
	let v = gen::shape(gen::LENS, gen::COUNTS).values(&ts);
	round(&ts, &v);
}
/// every list of 5 type nodes over a static and a dynamic elementary type
fn c01_five() {
	let ts = gen::list(5, gen::TWO, &[2]);
	let v = gen::shape(&[&[1], &[33, 0]], &[&[1], &[2, 1, 0]]).values(&ts);
	round(&ts, &v);
}
/// every list of 6 type nodes over a static and a dynamic elementary type
fn c01_six() {
	let ts = gen::list(6, gen::TWO, &[2]);
	let v = gen::shape(&[&[1], &[33, 0]], &[&[2, 1, 0]]).values(&ts);
	round(&ts, &v);
}
/// byte strings, texts and arrays of every length 0..=70 and 95..=97, 127..=129, 255..=257, 511..=513, 1000, 4096, 65535..=65537, alone and between other parameters
fn c01_long() {
	let n = match rt::choose(2) {
		0 => rt::choose(71),
		_ => rt::pick(&[95, 96, 97, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 4096, 65535, 65536, 65537]),
	};
	let ts = spec::tys(rt::pick(&["(bytes)", "(string)", "(uint8,bytes,bool)", "(string,bytes2)", "((string,bool))", "(bytes[1],string)"]));
	let v: Vec<Token> = ts.iter().map(|t| gen::sized(t, n, 1)).collect();
	round(&ts, &v);
}
/// arrays of every count 0..=40, 63..=65, 127..=129, 255..=257 and 300 of static, dynamic and composite elements
fn c01_counts() {
	let n = match rt::choose(2) {
		0 => rt::choose(41),
		_ => rt::pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257, 300]),
	};
	let ts = spec::tys(rt::pick(&["(uint8[])", "(string[])", "(bool,(bytes,address)[],string)", "(int8[2][])", "((bool[],bytes3)[])"]));
	let v: Vec<Token> = ts.iter().map(|t| gen::sized(t, 2, if let T::Array(_) = t { n } else { 1 })).collect();
	let v = if n > 40 { ts.iter().map(|t| match t { T::Array(e) => Token::Array((0..n).map(|_| gen::sized(e, 1, 1)).collect()), _ => gen::sized(t, 1, 1) }).collect() } else { v };
	round(&ts, &v);
}
/// fixed arrays of every length 1..=40, fixed bytes of every size 1..=66, lists of 1..=40 parameters
fn c01_fixed() {
	let n = 1 + rt::choose(40);
	let ts = match rt::choose(6) {
		0 => vec![T::FixedArray(Box::new(T::Uint(256)), n), T::Bool],
		1 => vec![T::FixedArray(Box::new(T::String), n), T::Bool],
		2 => vec![T::FixedArray(Box::new(T::Tuple(vec![T::Bool, T::FixedBytes(4)])), n), T::Bytes],
		3 => {
			let m = 1 + rt::choose(66);
			vec![T::FixedBytes(m), T::Address, T::FixedArray(Box::new(T::FixedBytes(m)), 2)]
		}
		4 => (0..n).map(|i| if i % 3 == 1 { T::String } else { T::Uint(256) }).collect(),
		_ => vec![T::Tuple((0..n).map(|i| if i % 3 == 1 { T::Bytes } else { T::Bool }).collect()), T::Bool],
	};
	let v: Vec<Token> = ts.iter().map(|t| gen::sized(t, 3, 1)).collect();
	round(&ts, &v);
}
/// texts with characters of every UTF-8 length, and every nesting depth 1..=12 of arrays and tuples
fn c01_texts() {
	if rt::choose(2) == 0 {
		let s = gen::mixed();
		let (ts, v) = match rt::choose(2) {
			0 => (vec![T::String, T::Bool], vec![Token::String(s), Token::Bool(true)]),
			_ => (vec![T::Array(Box::new(T::String))], vec![Token::Array(vec![Token::String(s.clone()), Token::String(s)])]),
		};
		round(&ts, &v);
	} else {
		let depth = 1 + rt::choose(12);
		let kind = rt::choose(4);
		let leaf = rt::pick(&["uint256", "string"]);
		let mut t = spec::ty(leaf);
		for i in 0..depth {
			t = match (kind, i % 2) {
				(0, _) | (3, 0) => T::Array(Box::new(t)),
				(1, _) => T::Tuple(vec![t]),
				(2, _) => T::FixedArray(Box::new(t), 1),
				_ => T::Tuple(vec![T::Bool, t]),
			};
		}
		let ts = vec![t, T::Bool];
		let v: Vec<Token> = ts.iter().map(|t| gen::sized(t, 5, 1)).collect();
		round(&ts, &v);
	}
}
/// lists and tuples (alone, and as elements of an array) of 1..=24, 32 or 33 components that are all the same but one, at every place
fn c01_odd() {
	let ts = gen::odd();
	let ts = match rt::choose(3) {
		0 => ts,
		1 => vec![T::Tuple(ts), T::String],
		_ => vec![T::Array(Box::new(T::Tuple(ts))), T::Bool],
	};
	let v: Vec<Token> = ts.iter().map(|t| gen::sized(t, 3, 1)).collect();
	round(&ts, &v);
}
/// numbers of every declared width (any 64-bit number), signed and unsigned, alone and in arrays and tuples; every value
fn c01_widths() {
	let ts = gen::wides();
	let v: Vec<Token> = ts.iter().map(|t| gen::sized(t, 3, 2)).collect();
	round(&ts, &v);
}
/// one large value (gen::huge: byte strings of 300 to 100000 bytes, arrays, fixed arrays, tuples and lists of 300 to 4097 values), alone or between others
fn c01_huge() {
	let (ts, v) = gen::huge();
	round(&ts, &v);
}
}
