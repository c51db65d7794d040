use crate::{gen, rt, spec};
use ethabi::{
	param_type::{Reader, Writer},
	ParamType as T,
};

fn back(t: &T) {
	let want = spec::name(t);
	let s = Writer::write(t);
	rt::observe(s.as_bytes());
	check!(s == want, "rendered name is not the canonical one");
	check!(t.to_string() == want, "Display differs from the canonical name");
	match Reader::read(&want) {
		Ok(u) => check!(spec::ty_eq(&u, t) && u == *t, "the canonical name reads as another type"),
		Err(_) => check!(false, "the canonical name is not read"),
	}
	rt::reach(1);
}
fn json(t: &T) {
	let want = spec::name(t);
	match serde_json::from_str::<T>(&spec::cat(&["\"", &want, "\""])) {
		Ok(u) => check!(spec::ty_eq(&u, t), "the canonical name deserializes as another type"),
		Err(_) => check!(false, "the canonical name does not deserialize"),
	}
}
const BIG: &[usize] = &[0, 999, 1000, 1024, 65535, 65536, 1_000_000_007, u32::MAX as usize, 1 << 32, usize::MAX - 1, usize::MAX];

harness! {
/// every type of up to 3 nodes over 12 elementary types, fixed arrays of 0, 1, 2, 10, also as JSON text
fn c08_three() {
	let n = 1 + rt::choose(3);
	let t = gen::ty(n, gen::ALL, &[0, 1, 2, 10]);
	back(&t);
	json(&t);
}
/// every type of 4 and 5 nodes over 3 elementary types
fn c08_five() {
	let n = 4 + rt::choose(2);
	let t = gen::ty(n, &["uint256", "bytes3", "string"], &[2]);
	back(&t);
}
/// every type of 6 nodes over 2 elementary types, 7 nodes over 1
fn c08_seven() {
	let t = if rt::choose(2) == 0 { gen::ty(6, gen::TWO, &[3]) } else { gen::ty(7, &["bool"], &[3]) };
	back(&t);
}
/// every type of 8 nodes over 1 elementary type
fn c08_eight_t() {
	back(&gen::ty(8, &["bytes9"], &[7]));
}
/// sizes 0..=300 and several up to 2^64-1 of integers, fixed bytes and fixed arrays, alone and nested
fn c08_sizes() {
	let n = if rt::choose(2) == 0 { rt::choose(301) } else { rt::pick(BIG) };
	let t = match rt::choose(8) {
		0 => T::Uint(n),
		1 => T::Int(n),
		2 => T::FixedBytes(n),
		3 => T::FixedArray(Box::new(T::Bool), n),
		4 => T::FixedArray(Box::new(T::FixedArray(Box::new(T::Uint(n)), 3)), n),
		5 => T::Array(Box::new(T::FixedArray(Box::new(T::FixedBytes(n)), n))),
		6 => T::Tuple(vec![T::Int(n), T::FixedArray(Box::new(T::Tuple(vec![T::Uint(n)])), n)]),
		_ => T::FixedArray(Box::new(T::Tuple(vec![T::Bool, T::FixedArray(Box::new(T::String), n)])), n),
	};
	back(&t);
	json(&t);
}
/// uint, int, bytes and array suffixes followed by 1 to 4 symbolic digits, the first not zero: the size read is the one written
fn c08_digits() {
	let n = 1 + rt::choose(4);
	let d = gen::over(n, b"0123456789");
	rt::assume(d[0] != b'0');
	let mut v = 0usize;
	for x in &d {
		v = 10 * v + (*x - b'0') as usize;
	}
	let kind = rt::choose(4);
	let (a, b) = [("uint", ""), ("int", ""), ("bytes", ""), ("(bool,int8)[", "]")][kind];
	let mut s = String::from(a);
	s.push_str(unsafe { std::str::from_utf8_unchecked(&d) });
	s.push_str(b);
	let want = match kind {
		0 => T::Uint(v),
		1 => T::Int(v),
		2 => T::FixedBytes(v),
		_ => T::FixedArray(Box::new(T::Tuple(vec![T::Bool, T::Int(8)])), v),
	};
	match Reader::read(&s) {
		Ok(t) => check!(spec::ty_eq(&t, &want), "another size is read"),
		Err(_) => check!(false, "the name is not read"),
	}
	rt::reach(1);
}
/// every size below 10^4 (one symbolic number) of integers, fixed bytes and fixed arrays: the rendered digits denote it, without leading zeros, and read back as it
fn c08_rendered() {
	let n = u32::from_le_bytes(rt::arr()) as usize;
	rt::assume(n < 10_000);
	let (t, pre, post): (T, &str, &str) = match rt::choose(4) {
		0 => (T::Uint(n), "uint", ""),
		1 => (T::Int(n), "int", ""),
		2 => (T::FixedBytes(n), "bytes", ""),
		_ => (T::FixedArray(Box::new(T::Tuple(vec![T::Bool])), n), "(bool)[", "]"),
	};
	let s = Writer::write(&t);
	rt::observe(s.as_bytes());
	let d = s.as_bytes();
	check!(d.len() > pre.len() + post.len() && d[..pre.len()] == *pre.as_bytes() && d[d.len() - post.len()..] == *post.as_bytes(), "name around the size");
	let d = &d[pre.len()..d.len() - post.len()];
	let mut v = 0usize;
	let mut ok = d.len() == 1 || d[0] != b'0';
	for x in d {
		ok &= x.is_ascii_digit();
		v = v * 10 + (x.wrapping_sub(b'0') & 15) as usize;
	}
	check!(ok && v == n, "the digits are not the size");
	match Reader::read(&s) {
		Ok(u) => check!(spec::ty_eq(&u, &t), "the canonical name reads as another type"),
		Err(_) => check!(false, "the canonical name is not read"),
	}
	rt::reach(1);
}
/// nesting depth 1..=30 of tuples and arrays; tuples of 0..=20 components; the shorthands uint and int at every place
fn c08_deep() {
	match rt::choose(3) {
		0 => {
			let depth = 1 + rt::choose(30);
			let kind = rt::choose(5);
			let mut t = T::Bool;
			for i in 0..depth {
				t = match (kind, i % 2) {
					(0, _) | (3, 0) => T::Array(Box::new(t)),
					(1, _) => T::Tuple(vec![t]),
					(2, _) => T::FixedArray(Box::new(t), i + 1),
					(4, _) => T::Tuple(vec![T::Tuple(vec![]), t, T::Array(Box::new(T::Tuple(vec![T::Bytes, T::Bool])))]),
					_ => T::Tuple(vec![T::Address, t, T::String]),
				};
			}
			back(&t);
		}
		1 => {
			let n = rt::choose(21);
			let t = T::Tuple((0..n).map(|i| if i % 4 == 3 { T::Tuple(vec![T::Bool; i % 3]) } else { T::Uint(i) }).collect());
			back(&t);
		}
		_ => {
			let (u, w) = rt::pick(&[("uint", T::Uint as fn(usize) -> T), ("int", T::Int as fn(usize) -> T)]);
			let (s, t) = match rt::choose(5) {
				0 => (u.to_string(), w(256)),
				1 => (spec::cat(&[u, "[]"]), T::Array(Box::new(w(256)))),
				2 => (spec::cat(&["(", u, ")"]), T::Tuple(vec![w(256)])),
				3 => (spec::cat(&["(bool,", u, "[4])[]"]), T::Array(Box::new(T::Tuple(vec![T::Bool, T::FixedArray(Box::new(w(256)), 4)])))),
				_ => (spec::cat(&["(", u, ",(", u, ",string))"]), T::Tuple(vec![w(256), T::Tuple(vec![w(256), T::String])])),
			};
			match Reader::read(&s) {
				Ok(x) => check!(spec::ty_eq(&x, &t), "shorthand is read as another type"),
				Err(_) => check!(false, "shorthand is not read"),
			}
		}
	}
}
/// tuples of 1..=24, 32 or 33 components that are all the same but one, at every place, alone and in a fixed array
fn c08_odd() {
	let t = T::Tuple(gen::odd());
	back(&if rt::choose(2) == 0 { t } else { T::FixedArray(Box::new(t), 3) });
}
}
