use crate::{gen, rt, spec};
use ethabi::{ParamType as T, Token, Topic};

/// what comes out of a token by each of the nine ways
fn parts(t: &Token) -> [Option<Token>; 9] {
	[
		t.clone().into_address().map(Token::Address),
		t.clone().into_fixed_bytes().map(Token::FixedBytes),
		t.clone().into_bytes().map(Token::Bytes),
		t.clone().into_int().map(Token::Int),
		t.clone().into_uint().map(Token::Uint),
		t.clone().into_bool().map(Token::Bool),
		t.clone().into_string().map(Token::String),
		t.clone().into_fixed_array().map(Token::FixedArray),
		t.clone().into_array().map(Token::Array),
	]
}
fn own(t: &Token) -> usize {
	match t {
		Token::Address(_) => 0,
		Token::FixedBytes(_) => 1,
		Token::Bytes(_) => 2,
		Token::Int(_) => 3,
		Token::Uint(_) => 4,
		Token::Bool(_) => 5,
		Token::String(_) => 6,
		Token::FixedArray(_) => 7,
		Token::Array(_) => 8,
		Token::Tuple(_) => 9,
	}
}
fn taken(t: &Token) {
	let k = own(t);
	rt::reach(k as u64);
	for (i, p) in parts(t).iter().enumerate() {
		match p {
			Some(x) => check!(i == k && spec::tok_eq(x, t), "a value taken out of a token"),
			None => check!(i != k, "the value of a token"),
		}
	}
	check!(t.is_dynamic() == spec::tok_dynamic(t), "dynamic token");
}
/// dynamic whatever the size of fixed arrays
fn whole(t: &T) -> bool {
	match t {
		T::Bytes | T::String | T::Array(_) => true,
		T::FixedArray(t, _) => whole(t),
		T::Tuple(v) => v.iter().any(whole),
		_ => false,
	}
}
fn typed(t: &T) {
	// fixed arrays of no dynamic values are left open
	let whole = whole(t);
	if whole == spec::dynamic(t) {
		check!(t.is_dynamic() == whole, "dynamic type");
	}
	let zero = match t {
		T::FixedBytes(n) | T::FixedArray(_, n) => *n == 0,
		_ => false,
	};
	rt::reach(zero as u64);
	check!(t.is_empty_bytes_valid_encoding() == zero, "empty encoding");
}

harness! {
/// every token of every structure of up to 3 nodes over 12 elementary types and 4 nodes over 4 (contents symbolic): each of the nine conversions, and whether it is dynamic
fn c21_tokens() {
	let n = 1 + rt::choose(4);
	let t = if n == 4 { gen::ty(4, &["bool", "string", "bytes3", "uint8"], &[0, 1, 2]) } else { gen::ty(n, gen::ALL, &[0, 1, 2]) };
	let mut sh = gen::shape(&[&[0, 3]], &[&[0, 1, 2], &[0, 1], &[1]]);
	taken(&sh.value(&t));
}
/// every elementary value of many sizes: byte strings, fixed bytes and texts of 0 to 257 bytes, arrays and tuples of as many
fn c21_sizes() {
	let n = gen::many();
	let t = match rt::choose(6) {
		0 => Token::Bytes(vec![7; n]),
		1 => Token::FixedBytes(vec![7; n]),
		2 => Token::String("x".repeat(n)),
		3 => Token::Array(vec![Token::Bool(true); n]),
		4 => Token::FixedArray(vec![Token::Bool(true); n]),
		_ => Token::Tuple(vec![Token::Bool(true); n]),
	};
	taken(&t);
	let mut v = vec![Token::Bool(true); n];
	if n > 0 {
		let at = rt::pick(&[0, n / 2, n - 1]);
		v[at] = rt::pick(&[0, 1, 2]).eq(&0).then(|| Token::String("".into())).unwrap_or(Token::Bytes(vec![]));
	}
	taken(&Token::Tuple(v.clone()));
	taken(&Token::FixedArray(v));
}
/// every list of types of up to 5 nodes: is it dynamic, is the empty encoding valid
fn c21_types() {
	let n = 1 + rt::choose(5);
	let t = if n == 5 { gen::ty(5, &["bool", "string"], &[0, 2]) } else if n == 4 { gen::ty(4, &["bool", "string", "bytes3", "bytes"], &[0, 1, 2]) } else { gen::ty(n, gen::ALL, &[0, 1, 2, 3]) };
	typed(&t);
}
/// types with every 64-bit size: numbers, fixed bytes, fixed arrays of static and dynamic types, alone and in tuples and arrays; tuples of 0 to 257 components, the dynamic one at any of three places
fn c21_wide() {
	let k = u64::from_le_bytes(rt::arr()) as usize;
	let t = match rt::choose(7) {
		0 => T::Uint(k),
		1 => T::Int(k),
		2 => T::FixedBytes(k),
		3 => T::FixedArray(Box::new(spec::ty(rt::pick(&["bool", "string", "bool[]", "(bool,bytes)", "uint8[2]", "string[0]"]))), k),
		4 => T::Tuple(vec![T::FixedBytes(k), T::FixedArray(Box::new(T::Bool), k)]),
		5 => T::Array(Box::new(T::FixedArray(Box::new(T::Bool), k))),
		_ => {
			let n = gen::many();
			let mut v = vec![T::Bool; n];
			if n > 0 && rt::choose(2) == 0 {
				let at = rt::pick(&[0, n / 2, n - 1]);
				v[at] = spec::ty(rt::pick(&["string", "bytes", "bool[]", "string[2]", "(bool,string)", "bool[2]", "(bool)"]));
			}
			T::Tuple(v)
		}
	};
	typed(&t);
}
/// dynamic or not, down to 20 levels of arrays, fixed arrays of any size and tuples around a static or dynamic type; a token likewise
fn c21_deep() {
	let n = rt::choose(21);
	let k = rt::pick(&[0, 1, 2]);
	let kind = rt::choose(3);
	let mut t = spec::ty(rt::pick(&["bool", "string", "bytes", "bytes32", "bool[]"]));
	let mut v = gen::sized(&t, 1, 1);
	for i in 0..n {
		match (kind + i * (1 + k)) % 3 {
			0 => {
				t = T::FixedArray(Box::new(t), 1);
				v = Token::FixedArray(vec![v]);
			}
			1 => {
				t = T::Tuple(vec![T::Bool, t]);
				v = Token::Tuple(vec![Token::Bool(true), v]);
			}
			_ if i % 5 == 4 => {
				t = T::Array(Box::new(t));
				v = Token::Array(vec![v]);
			}
			_ => {
				t = T::Tuple(vec![t]);
				v = Token::Tuple(vec![v]);
			}
		}
	}
	typed(&t);
	check!(v.is_dynamic() == spec::dynamic(&t), "dynamic token of a type");
	taken(&v);
}
/// topics of up to 5 symbolic values, and of 0 to 257: made from a value, an optional value and a list, mapped, indexed and turned into a list
fn c21_topics() {
	let n = if rt::choose(2) == 0 { rt::choose(6) } else { gen::many() };
	let mut v: Vec<u8> = (0..n).map(|i| i as u8).collect();
	let s = rt::bytes(n.min(5));
	v[..s.len()].copy_from_slice(&s);
	let t: Topic<u8> = v.clone().into();
	check!(matches!(&t, Topic::OneOf(x) if rt::same(x, &v)) && !t.is_any(), "alternatives");
	for i in 0..n {
		check!(t[i] == v[i], "alternative by index");
	}
	let m = t.map(|x| x as u32 * 3 + 1000);
	check!(!m.is_any(), "mapped alternatives");
	let back: Vec<u32> = m.into();
	check!(back.len() == n, "mapped count");
	for i in 0..n {
		check!(back[i] == v[i] as u32 * 3 + 1000, "mapped alternative");
	}
	let x = rt::arr::<1>()[0];
	let one: Topic<u8> = x.into();
	check!(one == Topic::This(x) && one[0] == x && !one.is_any(), "one topic");
	check!(one.map(|y| y ^ 1) == Topic::This(x ^ 1), "mapped topic");
	let some: Topic<u8> = Some(x).into();
	check!(some == Topic::This(x), "some topic");
	let list: Vec<u8> = some.into();
	check!(list == vec![x], "list of one topic");
	let none: Topic<u8> = None.into();
	check!(none == Topic::Any && none.is_any() && Topic::<u8>::default() == Topic::Any, "any topic");
	let mapped: Topic<u8> = none.map(|y: u8| y);
	check!(mapped.is_any(), "any topic mapped");
	let list: Vec<u8> = mapped.into();
	check!(list.is_empty(), "list of any topic");
	rt::reach(1);
}
}
