use crate::{gen, rt, spec};
use ethabi::{Hash, RawTopicFilter, Token, Topic, TopicFilter};

/// the rendering the property asks for; numbers are rendered by the harness that calls it
fn want(t: &Token) -> Vec<u8> {
	match t {
		Token::Bool(b) => (if *b { "true" } else { "false" }).as_bytes().to_vec(),
		Token::String(s) => s.as_bytes().to_vec(),
		Token::Address(a) => spec::hex(&a.0, false),
		Token::Bytes(b) | Token::FixedBytes(b) => spec::hex(b, false),
		Token::Uint(x) | Token::Int(x) => {
			let d = spec::hex(&spec::word_of(x), false);
			let mut i = 0;
			while i < 63 && d[i] == b'0' {
				i += 1;
			}
			d[i..].to_vec()
		}
		Token::Array(v) | Token::FixedArray(v) | Token::Tuple(v) => {
			let tup = matches!(t, Token::Tuple(_));
			let mut o = vec![if tup { b'(' } else { b'[' }];
			for (i, x) in v.iter().enumerate() {
				if i > 0 {
					o.push(b',');
				}
				o.extend_from_slice(&want(x));
			}
			o.push(if tup { b')' } else { b']' });
			o
		}
	}
}
/// n bytes: one of a few patterns with up to two of them arbitrary
fn part(n: usize) -> Vec<u8> {
	let mut v: Vec<u8> = match rt::choose(3) {
		0 => vec![0; n],
		1 => (0..n).map(|i| (i * 37 + 9) as u8).collect(),
		_ => (0..n).map(|i| if i % 2 == 0 { 0x0f } else { 0xf0 }).collect(),
	};
	let i = rt::pick(&[0, 1, n / 2, n - 1]);
	v[i] = rt::arr::<1>()[0];
	v[n - 1 - i / 2] = rt::arr::<1>()[0];
	v
}
fn shown(t: &Token) {
	let s = t.to_string();
	rt::observe(s.as_bytes());
	check!(rt::same(s.as_bytes(), &want(t)), "the value is rendered otherwise");
}
fn topic(k: usize) -> (Topic<Hash>, Vec<u8>) {
	let mut i = 7;
	let mut h = || {
		let mut w = [0u8; 32];
		for (j, b) in w.iter_mut().enumerate() {
			*b = ((j * 41) ^ i) as u8;
		}
		w[i % 32] = rt::arr::<1>()[0];
		i = (i * 5 + 1) % 64;
		ethabi::ethereum_types::H256(w)
	};
	let text = |h: &Hash| {
		let mut v = b"\"0x".to_vec();
		v.extend_from_slice(&spec::hex(&h.0, false));
		v.push(b'"');
		v
	};
	match k {
		0 => (Topic::Any, b"null".to_vec()),
		1 => {
			let x = h();
			let t = text(&x);
			(Topic::This(x), t)
		}
		n => {
			let mut v = vec![];
			let mut o = b"[".to_vec();
			for i in 0..n - 2 {
				let x = h();
				if i > 0 {
					o.push(b',');
				}
				o.extend_from_slice(&text(&x));
				v.push(x);
			}
			o.push(b']');
			(Topic::OneOf(v), o)
		}
	}
}

harness! {
/// every bool, string of 0, 1, 2, 20, 32, 33 or 65 characters, byte string of 0, 1, 2, 20, 32, 33 or 65 bytes, fixed bytes of 1 to 33 bytes
fn c18_simple() {
 	let t = spec::ty(rt::pick(&["bool", "string", "bytes", "bytes1", "bytes5", "bytes32", "bytes33"]));
	shown(&gen::shape(&[&[0], &[1], &[2], &[20], &[32], &[33], &[65]], gen::COUNTS).value(&t));
}
/// addresses: a few patterns with two bytes at several places arbitrary
fn c18_address() {
	let mut a = [0; 20];
	a.copy_from_slice(&part(20));
	shown(&Token::Address(ethabi::ethereum_types::H160(a)));
}
/// a single topic: a few patterns with two bytes at several places arbitrary
fn c18_hash() {
	let mut a = [0; 32];
	a.copy_from_slice(&part(32));
	let f = TopicFilter { topic0: Topic::This(ethabi::ethereum_types::H256(a)), topic1: Topic::Any, topic2: Topic::OneOf(vec![]), topic3: Topic::Any };
	let w = [&b"[\"0x"[..], &spec::hex(&a, false), b"\",null,[],null]"].concat();
	check!(matches!(serde_json::to_vec(&f), Ok(s) if rt::same(&s, &w)), "the filter is serialized otherwise");
}
/// every number: one with each number of digits, all digits symbolic, signed and unsigned
fn c18_number() {
	let n = rt::choose(64);
	let mut w = [0u8; 32];
	let i = 31 - n / 2;
	w[i..].copy_from_slice(&rt::bytes(32 - i));
	// the number has exactly n + 1 digits (one digit may be 0)
	if n % 2 == 0 {
		rt::assume(w[i] < 16);
		rt::assume(n == 0 || w[i] > 0);
	} else {
		rt::assume(w[i] > 15);
	}
	let x = spec::uint_of(&w);
	shown(&if rt::choose(2) == 0 { Token::Uint(x) } else { Token::Int(x) });
}
/// arrays, fixed arrays and tuples of every structure of up to 4 nodes, of 0 to 3 items
fn c18_nested() {
	let n = 1 + rt::choose(4);
	let t = if n < 3 { gen::ty(n, &["bool", "string", "bytes3"], &[0, 1, 3]) } else { gen::ty(n, &["string"], &[0, 2]) };
	shown(&gen::shape(&[&[2, 0]], &[&[0], &[1], &[2, 1]]).value(&t));
}
/// mixed tuples with numbers, empty tuples
fn c18_mixed() {
	let t = spec::ty(rt::pick(&["(bytes3,bool,string)", "(string,(bytes,bool)[])", "((bool),(string))[2]", "()", "()[2]", "(bool[],bool[0],bool[1])", "string[][]", "(string,uint256)[2]", "(int256,bytes)"]));
	let mut v = gen::shape(&[&[0], &[3]], &[&[0], &[1], &[2]]).value(&t);
	numbers(&mut v);
	shown(&v);
}
/// texts with characters of several bytes are rendered unchanged
fn c18_unicode() {
	let s = gen::mixed();
	let v = Token::String(s);
	shown(&if rt::choose(2) == 0 { v } else { Token::Array(vec![v.clone(), v]) });
}
/// topic filters: every combination of null, one topic and 0 to 3 alternatives in each of the four places, one arbitrary byte in each hash
fn c18_filter() {
	let mut o = b"[".to_vec();
	let mut ts = vec![];
	for i in 0..4 {
		let (t, s) = topic(rt::pick(if i == 1 { &[0, 1, 2, 3, 4, 5][..] } else { &[0, 1, 2, 4] }));
		if i > 0 {
			o.push(b',');
		}
		o.extend_from_slice(&s);
		ts.push(t);
	}
	o.push(b']');
	let topic3 = ts.pop().unwrap();
	let topic2 = ts.pop().unwrap();
	let topic1 = ts.pop().unwrap();
	let topic0 = ts.pop().unwrap();
	let f = TopicFilter { topic0, topic1, topic2, topic3 };
	match serde_json::to_vec(&f) {
		Ok(s) => check!(rt::same(&s, &o), "the filter is serialized otherwise"),
		Err(_) => check!(false, "the filter is not serialized"),
	}
}
/// conversions of topics: from and to options, values and lists, mapping, indexing, emptiness
fn c18_topic() {
	let n = rt::choose(4);
	let v = rt::bytes(n);
	let t: Topic<u8> = v.clone().into();
	check!(matches!(&t, Topic::OneOf(x) if rt::same(x, &v)) && !t.is_any(), "alternatives");
	for i in 0..n {
		check!(t[i] == v[i], "alternative by index");
	}
	let m = t.map(|x| x as u32 + 1000);
	let back: Vec<u32> = m.into();
	check!(back.len() == n, "mapped count");
	for i in 0..n {
		check!(back[i] == v[i] as u32 + 1000, "mapped alternative");
	}
	let x = rt::arr::<1>()[0];
	let one: Topic<u8> = x.into();
	check!(one == Topic::This(x) && one[0] == x && !one.is_any(), "one topic");
	check!(one.map(|y| y ^ 1) == Topic::This(x ^ 1), "mapped topic");
	let some: Topic<u8> = Some(x).into();
	check!(some == Topic::This(x), "some topic");
	let list: Vec<u8> = some.into();
	check!(list == vec![x], "list of one topic");
	let none: Topic<u8> = None.into();
	check!(none == Topic::Any && none.is_any() && Topic::<u8>::default() == Topic::Any, "any topic");
	let mapped: Topic<u8> = none.map(|y: u8| y);
	check!(mapped.is_any(), "any topic mapped");
	let list: Vec<u8> = mapped.into();
	check!(list.is_empty(), "list of any topic");
	let raw = RawTopicFilter::default();
	check!(raw.topic0.is_any() && raw.topic1.is_any() && raw.topic2.is_any(), "raw filter");
	let f = TopicFilter::default();
	check!(f.topic0.is_any() && f.topic1.is_any() && f.topic2.is_any() && f.topic3.is_any(), "filter");
}
/// 0 to 257 items (sizes as in gen::many) in arrays, fixed arrays and tuples; byte strings and texts as long; as many alternatives in a filter
fn c18_many() {
	let n = gen::many();
	let e = rt::pick(&["bool", "bytes1", "string"]);
	let mut v = gen::shape(&[&[1]], &[&[1]]).value(&spec::ty(e));
	match rt::choose(6) {
		0 => v = Token::Array(vec![v; n]),
		1 => v = Token::FixedArray(vec![v; n]),
		2 => v = Token::Tuple(vec![v; n]),
		3 => {
			let mut b = vec![7; n];
			b.extend_from_slice(&rt::bytes(1));
			v = if e == "bool" { Token::Bytes(b) } else { Token::FixedBytes(b) }
		}
		4 => {
			rt::assume(n <= 34);
			for i in 0..n {
				v = match i % 3 {
					0 => Token::Array(vec![v, Token::Bool(true)]),
					1 => Token::Tuple(vec![v]),
					_ => Token::FixedArray(vec![Token::Bool(false), v]),
				};
			}
		}
		_ => {
			let mut a = [3u8; 32];
			a[30] = rt::arr::<1>()[0];
			let h = ethabi::ethereum_types::H256(a);
			let f = TopicFilter { topic0: Topic::This(h), topic1: Topic::OneOf(vec![h; n]), topic2: Topic::Any, topic3: Topic::OneOf(vec![h; n]) };
			let one = [&b"\"0x"[..], &spec::hex(&a, false), b"\""].concat();
			let mut o = b"[".to_vec();
			o.extend_from_slice(&one);
			for k in 0..3 {
				o.extend_from_slice(if k == 1 { b",null" } else { b",[" });
				if k != 1 {
					for i in 0..n {
						if i > 0 {
							o.push(b',');
						}
						o.extend_from_slice(&one);
					}
					o.push(b']');
				}
			}
			o.push(b']');
			check!(matches!(serde_json::to_vec(&f), Ok(s) if rt::same(&s, &o)), "the filter is serialized otherwise");
			return;
		}
	}
	shown(&v);
}
/// byte strings and texts of 300 to 100000 bytes, arrays, fixed arrays and tuples of 300 to 4097 items
fn c18_huge() {
	let v = match rt::choose(5) {
		0 => Token::Bytes((0..if rt::choose(2) == 0 { gen::thousands() } else { gen::hundreds() }).map(|i| (i * 7) as u8).collect()),
		1 => Token::String("xyz".repeat(if rt::choose(2) == 0 { gen::thousands() } else { gen::hundreds() })),
		2 => Token::Array(vec![Token::Bool(true); gen::hundreds()]),
		3 => Token::FixedArray(vec![Token::String("a".into()); gen::hundreds()]),
		_ => Token::Tuple(vec![Token::Bytes(vec![0xab]); gen::hundreds()]),
	};
	shown(&v);
}
}
/// numbers with leading zeros are the business of c18_number
fn numbers(v: &mut Token) {
	match v {
		Token::Uint(x) | Token::Int(x) => {
			let mut w = [0u8; 32];
			w[30] = rt::arr::<1>()[0];
			w[31] = rt::arr::<1>()[0];
			rt::assume(w[30] > 15);
			*x = spec::uint_of(&w);
		}
		Token::Array(v) | Token::FixedArray(v) | Token::Tuple(v) => {
			for x in v.iter_mut() {
				numbers(x);
			}
		}
		_ => {}
	}
}
