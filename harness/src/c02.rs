use crate::{gen, rt, spec};
use ethabi::{ParamType as T, Token};

fn layout(v: &[Token]) {
	let e = ethabi::encode(v);
	rt::observe(&e);
	rt::reach(1);
	let w = spec::enc(v);
	check!(e.len() % 32 == 0, "not a whole number of words");
	check!(e.len() == w.len(), "length differs from the specification's");
	check!(rt::same(&e, &w), "bytes differ from the specification's");
}
fn sized(ts: &[T], len: usize, count: usize) -> Vec<Token> {
	ts.iter().map(|t| gen::sized(t, len, count)).collect()
}

harness! {
/// values of every list of up to 3 type nodes over 12 elementary types, arrays, fixed arrays of 0 to 3, tuples; byte strings of 0, 1, 32 and mixed 0/31/33/64 bytes; arrays of 0, 1, 3 and mixed 0/1/2 elements; all contents symbolic
fn c02_small() {
	let n = rt::choose(4);
	let ts = gen::list(n, gen::ALL, &[0, 1, 2, 3]);
	let v = gen::shape(gen::LENS, gen::COUNTS).values(&ts);
	layout(&v);
}
/// values of every list of 4 type nodes over one elementary type per layout class
fn c02_four() {
	let ts = gen::list(4, gen::FEW, &[0, 2]);
	let v = gen::shape(gen::LENS, gen::COUNTS).values(&ts);
	layout(&v);
}
/// values of every list of 5 type nodes over a static and a dynamic elementary type
fn c02_five() {
	let ts = gen::list(5, gen::TWO, &[2]);
	let v = gen::shape(&[&[1], &[33, 0]], &[&[1], &[2, 1, 0]]).values(&ts);
	layout(&v);
}
/// values of every list of 6 type nodes over a static and a dynamic elementary type
fn c02_six() {
	let ts = gen::list(6, gen::TWO, &[2]);
	let v = gen::shape(&[&[33, 0]], &[&[2, 1, 0]]).values(&ts);
	layout(&v);
}
/// values of every list of 7 type nodes over a static and a dynamic elementary type
fn c02_seven_t() {
	let ts = gen::list(7, gen::TWO, &[2]);
	let v = gen::shape(&[&[33, 0]], &[&[1, 2, 0]]).values(&ts);
	layout(&v);
}
/// byte strings and texts of every length 0..=70 and 95..=97, 127..=129, 255..=257, 511..=513, 1000, 4096, 65535..=65537
fn c02_long() {
	let n = match rt::choose(2) {
		0 => rt::choose(71),
		_ => rt::pick(&[95, 96, 97, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 4096, 65535, 65536, 65537]),
	};
	let ts = spec::tys(rt::pick(&["(bytes)", "(string)", "(uint8,bytes,bool)", "(string,string)", "((string,bool),bytes)", "(bytes[1],string)"]));
	layout(&sized(&ts, n, 1));
}
/// arrays of every count 0..=40, 63..=65, 127..=129, 255..=257 and 300
fn c02_counts() {
	let n = match rt::choose(2) {
		0 => rt::choose(41),
		_ => rt::pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257, 300]),
	};
	let e = spec::ty(rt::pick(&["uint8", "string", "(bytes,address)", "int8[2]", "string[2]", "(bool[],bytes3)", "bytes4"]));
	let mut a = vec![];
	for _ in 0..n {
		a.push(gen::sized(&e, 1, 1));
	}
	let v = match rt::choose(3) {
		0 => vec![Token::Array(a)],
		1 => vec![gen::sized(&T::String, 3, 0), Token::Array(a), gen::sized(&T::Bytes, 40, 0)],
		_ => vec![Token::FixedArray(a), gen::sized(&T::Bytes, 2, 0)],
	};
	layout(&v);
}
/// fixed bytes of every length 0..=66, lists and tuples of 1..=40 components
fn c02_fixed() {
	let n = 1 + rt::choose(40);
	let ts = match rt::choose(4) {
		0 => {
			let m = rt::choose(67);
			vec![T::FixedBytes(m), T::Address, T::Tuple(vec![T::FixedBytes(m), T::String])]
		}
		1 => (0..n).map(|i| if i % 3 == 1 { T::String } else { T::Uint(256) }).collect(),
		2 => vec![T::Tuple((0..n).map(|i| if i % 3 == 1 { T::Bytes } else { T::Bool }).collect()), T::String],
		_ => vec![T::Tuple((0..n).map(|_| T::Int(16)).collect()), T::String],
	};
	layout(&sized(&ts, 3, 1));
}
/// texts with characters of every UTF-8 length; every nesting depth 1..=12
fn c02_texts() {
	if rt::choose(2) == 0 {
		layout(&[Token::String(gen::mixed()), Token::Bool(true)]);
	} else {
		let depth = 1 + rt::choose(12);
		let kind = rt::choose(4);
		let mut t = spec::ty(rt::pick(&["uint256", "string"]));
		for i in 0..depth {
			t = match (kind, i % 2) {
				(0, _) | (3, 0) => T::Array(Box::new(t)),
				(1, _) => T::Tuple(vec![t]),
				(2, _) => T::FixedArray(Box::new(t), 1),
				_ => T::Tuple(vec![T::Bool, t]),
			};
		}
		layout(&sized(&[t, T::Bool], 5, 1));
	}
}
/// lists and tuples (alone, and as elements of an array) of 1..=24, 32 or 33 components that are all the same but one, at every place
fn c02_odd() {
	let ts = gen::odd();
	let ts = match rt::choose(3) {
		0 => ts,
		1 => vec![T::Tuple(ts), T::String],
		_ => vec![T::Array(Box::new(T::Tuple(ts))), T::Bool],
	};
	layout(&sized(&ts, 3, 1));
}
/// one large value (gen::huge: byte strings of 300 to 100000 bytes, arrays, fixed arrays, tuples and lists of 300 to 4097 values), alone or between others
fn c02_huge() {
	let (_, v) = gen::huge();
	let e = ethabi::encode(&v);
	check!(rt::same(&e, &spec::enc(&v)), "encoded bytes differ from the specified ones");
}
}
