use crate::{gen, rt, spec};
use ethabi::{ParamType as T, Token};

fn exact(v: &[Token], ts: &[T]) {
	let want = spec::conform(v, ts);
	let got = Token::types_check(v, ts);
	rt::reach(want as u64);
	check!(got == want, "types_check differs from conformance");
	for (x, t) in v.iter().zip(ts) {
		check!(x.type_check(t) == spec::conforms(x, t), "type_check differs from conformance");
	}
}
/// every value with exactly n nodes (contents symbolic)
fn value(n: usize, few: bool) -> Token {
	if n == 1 {
		return match rt::choose(if few { 6 } else { 13 }) {
			0 => Token::Uint(spec::uint_of(&rt::arr::<32>())),
			1 => Token::FixedBytes(rt::bytes(5)),
			2 => Token::String(gen::text(1)),
			3 => Token::Array(vec![]),
			4 => Token::FixedArray(vec![]),
			5 => Token::Tuple(vec![]),
			6 => Token::Address(ethabi::ethereum_types::H160(rt::arr())),
			7 => Token::Bool(rt::arr::<1>()[0] & 1 == 1),
			8 => Token::Int(spec::uint_of(&rt::arr::<32>())),
			9 => Token::Bytes(rt::bytes(2)),
			10 => Token::FixedBytes(rt::bytes(1)),
			11 => Token::FixedBytes(rt::bytes(32)),
			_ => Token::FixedBytes(rt::bytes(33)),
		};
	}
	let k = rt::choose(3);
	let v = values(n - 1, few);
	match k {
		0 => Token::Array(v),
		1 => Token::FixedArray(v),
		_ => Token::Tuple(v),
	}
}
fn values(n: usize, few: bool) -> Vec<Token> {
	let mut v = vec![];
	let mut left = n;
	while left > 0 {
		let s = 1 + rt::choose(left);
		v.push(value(s, few));
		left -= s;
	}
	v
}
harness! {
/// every list of up to 2 value nodes of every kind (contents symbolic) against every list of up to 2 type nodes
fn c06_two() {
	let a = rt::choose(3);
	let b = rt::choose(3);
	let v = values(a, false);
	let ts = gen::list(b, gen::ALL, &[0, 1, 2]);
	exact(&v, &ts);
}
/// every list of 3 value nodes against every list of 1 to 3 type nodes over one elementary type per layout class
fn c06_three() {
	let b = 1 + rt::choose(3);
	let ts = gen::list(b, &["uint256", "bytes5", "string"], &[0, 1, 2]);
	let v = values(3, true);
	exact(&v, &ts);
}
/// conforming values of every list of up to 3 type nodes over 12 elementary types and 4 nodes over 4, with any one node changed in kind, length or order, or none
fn c06_changed() {
	let n = 1 + rt::choose(4);
	let ts = if n == 4 { gen::list(n, gen::FEW, &[2]) } else { gen::list(n, gen::ALL, &[1, 2, 3]) };
	let mut v = gen::shape(&[&[1]], &[&[0], &[2, 1], &[3]]).values(&ts);
	let k = rt::choose(gen::nodes(&v) + 1);
	if k > 0 {
		gen::change(&mut v, &mut (k - 1));
	}
	exact(&v, &ts);
}
/// conforming values of every list of 5 type nodes over a static and a dynamic elementary type, with any one node changed, or none
fn c06_changed5() {
	let ts = gen::list(5, &["bytes5", "bytes"], &[2]);
	let mut v = gen::shape(&[&[1]], &[&[2, 1]]).values(&ts);
	let k = rt::choose(gen::nodes(&v) + 1);
	if k > 0 {
		gen::change(&mut v, &mut (k - 1));
	}
	exact(&v, &ts);
}
/// fixed bytes of every length 0..=130 against every declared size up to 2^64-1; also inside a tuple, an array and a fixed array
fn c06_bytes() {
	let k = u64::from_le_bytes(rt::arr()) as usize;
	let n = rt::choose(131);
	let x = Token::FixedBytes(rt::bytes(n));
	let t = T::FixedBytes(k);
	// same number of words, no longer than declared
	let words = (n + 31) / 32;
	let want = n <= k && (if k % 32 == 0 { k / 32 } else { k / 32 + 1 }) == words;
	let (x, t) = match rt::choose(4) {
		0 => (x, t),
		1 => (Token::Tuple(vec![x]), T::Tuple(vec![t])),
		2 => (Token::Array(vec![x.clone(), x]), T::Array(Box::new(t))),
		_ => (Token::FixedArray(vec![x]), T::FixedArray(Box::new(t), 1)),
	};
	let got = x.type_check(&t);
	check!(got == want, "fixed bytes conform exactly when they fit the declared size");
	rt::reach(1);
}
/// fixed arrays of 0..=5 elements, arrays and tuples, against every declared length up to 2^64-1; integers of every declared width; every value content
fn c06_sizes() {
	let k = u64::from_le_bytes(rt::arr()) as usize;
	let n = rt::choose(6);
	let good = rt::choose(2) == 0;
	let mut v = vec![];
	for i in 0..n {
		v.push(if good || i + 1 < n { Token::Uint(spec::uint_of(&rt::arr::<32>())) } else { Token::Bool(true) });
	}
	let (x, t, want) = match rt::choose(5) {
		0 => (Token::FixedArray(v), T::FixedArray(Box::new(T::Uint(8)), k), n == k && (good || n == 0)),
		1 => (Token::Array(v), T::FixedArray(Box::new(T::Uint(8)), k), false),
		2 => (Token::Uint(spec::uint_of(&rt::arr::<32>())), T::Uint(k), true),
		3 => (Token::Int(spec::uint_of(&rt::arr::<32>())), T::Int(k), true),
		_ => (Token::Array(v), T::Array(Box::new(T::Uint(k))), good || n == 0),
	};
	check!(x.type_check(&t) == want, "type_check differs from conformance");
	rt::reach(want as u64);
}
/// nesting depth 1..=10 with the innermost value right or wrong
fn c06_deep() {
	let depth = 1 + rt::choose(10);
	let kind = rt::choose(4);
	let (mut t, mut x) = (T::Bytes, if rt::choose(2) == 0 { Token::Bytes(rt::bytes(3)) } else { Token::String(gen::text(3)) });
	for i in 0..depth {
		let (a, b) = match (kind, i % 2) {
			(0, _) | (3, 0) => (T::Array(Box::new(t)), Token::Array(vec![Token::Bytes(vec![]), x])),
			(1, _) => (T::Tuple(vec![T::Bool, t]), Token::Tuple(vec![Token::Bool(true), x])),
			(2, _) => (T::FixedArray(Box::new(t), 1), Token::FixedArray(vec![x])),
			_ => (T::Tuple(vec![t, T::Bool]), Token::Tuple(vec![x, Token::Bool(true)])),
		};
		let (a, b) = match b {
			// keep the first element conforming to the element type
			Token::Array(mut v) => {
				let last = v.pop().unwrap();
				(a, Token::Array(vec![last.clone(), last]))
			}
			b => (a, b),
		};
		t = a;
		x = b;
		if i > 5 && kind % 3 == 0 {
			break;
		}
	}
	exact(std::slice::from_ref(&x), std::slice::from_ref(&t));
}
/// arrays, fixed arrays, tuples and lists of 0 to 257 values (sizes as in gen::many), all right, one more or fewer, or one wrong at any place up to 70 or at the end
fn c06_many() {
	let n = gen::many();
	let e = spec::ty(rt::pick(&["bool", "bytes3", "(string,int8)"]));
	let good = gen::shape(&[&[1]], &[&[1]]).value(&e);
	let mut v = vec![good.clone(); n];
	let k = rt::choose(3 + n.min(71));
	match k {
		0 => {}
		1 => v.push(good),
		2 => {
			v.pop();
		}
		i => {
			let i = if i == 73 { n - 1 } else { i - 3 };
			v[i] = match &v[i] {
				Token::Tuple(_) => Token::Tuple(vec![Token::String(String::new()), Token::Uint(1.into())]),
				_ => Token::Uint(1.into()),
			};
		}
	}
	match rt::choose(4) {
		0 => exact(&[Token::Array(v)], &[T::Array(Box::new(e))]),
		1 => exact(&[Token::FixedArray(v)], &[T::FixedArray(Box::new(e), n)]),
		2 => exact(&[Token::Tuple(v)], &[T::Tuple(vec![e; n])]),
		_ => exact(&v, &vec![e; n]),
	}
}
/// one large value (gen::huge: byte strings of 300 to 100000 bytes, arrays, fixed arrays, tuples and lists of 300 to 4097 values), alone or between others, as it is or with the last element missing or of another kind
fn c06_huge() {
	let (ts, mut v) = gen::huge();
	let i = if v.len() == 3 { 1 } else { 0 };
	let k = rt::choose(4);
	match &mut v[i] {
		Token::Array(x) | Token::FixedArray(x) | Token::Tuple(x) => {
			let n = x.len();
			match k {
				0 => {}
				1 => drop(x.pop()),
				2 => x[n - 1] = Token::Address(Default::default()),
				_ => x[n / 2] = Token::Address(Default::default()),
			}
		}
		Token::FixedBytes(b) => match k {
			0 => {}
			1 => drop(b.pop()),
			2 => b.push(0),
			_ => b.truncate(b.len() - 32),
		},
		_ => {
			let n = v.len();
			match k {
				0 => {}
				1 => drop(v.pop()),
				2 => v[n - 1] = Token::Address(Default::default()),
				_ => v.push(Token::Bool(true)),
			}
		}
	}
	exact(&v, &ts);
}
}
