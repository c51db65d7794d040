use crate::{gen, rt, spec};
use ethabi::{
	token::{LenientTokenizer, StrictTokenizer, Tokenizer},
	ParamType as T, Token,
};

fn read(t: &T, b: &[u8], lenient: bool) {
	let s = unsafe { std::str::from_utf8_unchecked(b) };
	let got = if lenient { LenientTokenizer::tokenize(t, s) } else { StrictTokenizer::tokenize(t, s) };
	let want = spec::parse(t, b, lenient);
	rt::reach(want.is_some() as u64);
	match (&got, &want) {
		(Ok(g), Some(w)) => {
			check!(spec::tok_eq(g, w), "another value is read");
			check!(spec::conforms(g, t) && g.type_check(t), "the value does not conform to the type");
		}
		(Err(_), None) => {}
		(Ok(_), None) => check!(false, "a value is read from malformed text"),
		(Err(_), Some(_)) => check!(false, "well-formed text is rejected"),
	}
}
const MARKS: &[u8] = b"[](),\"1x";
fn around(t: &str, inner: &[u8]) -> Vec<u8> {
	let (o, c) = if t.ends_with(')') { (b'(', b')') } else { (b'[', b']') };
	let mut b = vec![o];
	b.extend_from_slice(inner);
	b.push(c);
	b
}

harness! {
/// strings: every text of up to 8 characters over [ ] ( ) , " 1 x between the brackets of the type
fn c17_marks() {
	let t = rt::pick(&["string[]", "(string,string)"]);
	let n = rt::choose(9);
	read(&spec::ty(t), &around(t, &gen::over(n, MARKS)), false);
}
/// strings: 9 characters
fn c17_marks_t() {
	let t = rt::pick(&["string[]", "string[2]", "(string,string)", "string[][]"]);
	read(&spec::ty(t), &around(t, &gen::over(9, MARKS)), false);
}
/// further types of strings and booleans, flat and nested: the same with up to 6 characters
fn c17_nested() {
	let t = rt::pick(&["string[2]", "string[][]", "(string,bool)[]", "(string[],string)", "((string,string),string)", "bool[]", "bool[1][]", "(bool,bool)", "((bool))", "(bool[],bool)", "string[0]", "()", "(string)"]);
	let lenient = rt::choose(2) == 1;
	let n = rt::choose(7);
	read(&spec::ty(t), &around(t, &gen::over(n, MARKS)), lenient);
}
/// no brackets supplied: every ASCII text of up to 4 characters for array, fixed array and tuple types
fn c17_any() {
	let t = rt::pick(&["string[]", "string[1]", "bool[]", "(string)", "(bool,string)", "uint256[]", "bytes[]", "()"]);
	let lenient = rt::choose(2) == 1;
	let n = rt::choose(5);
	read(&spec::ty(t), gen::text(n).as_bytes(), lenient);
}
/// well-formed nested text with any one or two characters replaced by a mark, any single one by any ASCII character, left out or cut off
fn c17_changed() {
	let (t, s) = rt::pick(&[
		("string[][]", "[[ab,c],[],[d]]"),
		("(bool,string)[2]", "[(true,a b),(0,\"x,y\")]"),
		("((string,bool[]),string[1][])", "((p,[1,0]),[[\"]\"],[z]])"),
		("(string,(bool,(string,string)))", "(a(,),(1,(b,c)))"),
	]);
	let mut b = s.as_bytes().to_vec();
	let i = rt::choose(b.len());
	match rt::choose(4) {
		0 => b[i] = gen::text(1).as_bytes()[0],
		1 => {
			b.remove(i);
		}
		2 => b.truncate(i),
		_ => {
			let j = i + 1 + rt::choose(3);
			rt::assume(j < b.len());
			b[i] = gen::over(1, MARKS)[0];
			b[j] = gen::over(1, MARKS)[0];
		}
	}
	read(&spec::ty(t), &b, rt::choose(2) == 1);
}
/// the number of items: arrays, fixed arrays and tuples of 0 to 4, given 0 to 5 items of 0 or 1 characters
fn c17_count() {
	let e = rt::pick(&["string", "bool"]);
	let k = rt::choose(5);
	let t = match rt::choose(3) {
		0 => T::Array(Box::new(spec::ty(e))),
		1 => T::FixedArray(Box::new(spec::ty(e)), k),
		_ => T::Tuple(vec![spec::ty(e); k]),
	};
	let tup = matches!(t, T::Tuple(_));
	let n = rt::choose(6);
	let one = rt::choose(2) == 1;
	let mut inner = vec![];
	for i in 0..n {
		if i > 0 {
			inner.push(b',');
		}
		if one {
			inner.extend_from_slice(&gen::over(1, b"01ab "));
		}
	}
	read(&t, &around(if tup { ")" } else { "" }, &inner), false);
}
/// any character of 2, 3 and 4 bytes in items, around them and instead of brackets
fn c17_unicode() {
	let (t, s) = rt::pick(&[("string[]", "[ab,c]"), ("(string,string)", "(a,b)"), ("(string,string[])", "(a,[b,c])"), ("string[2][]", "[[\"a,\",b]]"), ("bool[]", "[1,0]")]);
	let u = gen::ch(2 + rt::choose(3));
	let at = rt::choose(s.len() + 1);
	let cut = rt::choose(2).min(s.len() - at);
	let mut b = s.as_bytes()[..at].to_vec();
	b.extend_from_slice(u.as_bytes());
	b.extend_from_slice(&s.as_bytes()[at + cut..]);
	if rt::choose(2) == 1 {
		let i = rt::choose(b.len());
		rt::assume(b[i] < 0x80);
		b[i] = gen::over(1, MARKS)[0];
	}
	read(&spec::ty(t), &b, rt::choose(2) == 1);
}
/// arrays and tuples of addresses, numbers and fixed bytes: every hexadecimal text of the items
fn c17_hex() {
	let (t, ns) = rt::pick(&[("address[]", &[40usize, 40][..]), ("uint256[1]", &[64]), ("int256[]", &[64, 64]), ("(address,bytes3,uint256)", &[40, 6, 64]), ("((uint256),bytes[])", &[]), ("bytes[][]", &[])]);
	let b = if ns.is_empty() {
		let x = gen::over(64, b"0123456789abcdefABCDEF");
		if t == "bytes[][]" {
			[&b"[["[..], &x[..2], b",", &x[2..8], b"],[],[", &x[8..16], b"]]"].concat()
		} else {
			[&b"(("[..], &x, b"),[", &x[..2], b",", &x[2..8], b"])"].concat()
		}
	} else {
		let mut v = vec![];
		for (i, n) in ns.iter().enumerate() {
			if i > 0 {
				v.push(b',');
			}
			v.extend_from_slice(&gen::over(*n, b"0123456789abcdefABCDEF"));
		}
		around(t, &v)
	};
	read(&spec::ty(t), &b, rt::choose(2) == 1);
}
/// the exact text of values reads back: strings in every structure of up to 4 nodes, bool and bytes of up to 3
fn c17_back() {
	let t = if rt::choose(2) == 0 { gen::ty(1 + rt::choose(4), &["string"], &[1, 2]) } else { gen::ty(1 + rt::choose(3), &["bool", "bytes"], &[1, 2]) };
	let mut sh = gen::shape(&[&[1], &[2, 0]], &[&[0], &[2, 1]]);
	let v = sh.value(&t);
	let b = spec::render(&v);
	if has_string(&t) {
		// texts without separators
		for c in &b {
			rt::assume(*c < 0x80);
		}
		rt::assume(plain(&v));
	}
	let ambiguous = has_lone_empty(&v);
	let s = unsafe { std::str::from_utf8_unchecked(&b) };
	let got = if rt::choose(2) == 1 { LenientTokenizer::tokenize(&t, s) } else { StrictTokenizer::tokenize(&t, s) };
	if !ambiguous {
		check!(matches!(&got, Ok(g) if spec::tok_eq(g, &v)), "the text of a value does not read back");
	}
}
/// 0 to 257 items (sizes as in gen::many) for an array, and for fixed arrays and tuples of as many, one more or one fewer; items as long; nesting up to 34 deep
fn c17_many() {
	let n = gen::many();
	let e = spec::ty("string");
	let k = rt::choose(5);
	let mut inner = vec![];
	if k < 3 {
		for i in 0..n {
			if i > 0 {
				inner.push(b',');
			}
			inner.push(b'a' + (i % 26) as u8);
		}
		if n > 0 {
			let at = rt::pick(&[0, inner.len() / 2, inner.len() - 1]);
			inner[at] = gen::over(1, MARKS)[0];
		}
	} else {
		inner.extend_from_slice(&vec![b'x'; n]);
		inner.extend_from_slice(&gen::over(2, MARKS));
	}
	let m = (n + 1).saturating_sub(rt::choose(3));
	let t = match k {
		0 => T::Array(Box::new(e)),
		1 => T::FixedArray(Box::new(e), m),
		2 => T::Tuple(vec![e; m]),
		3 => T::Array(Box::new(e)),
		_ => {
			rt::assume(n <= 34);
			let mut t = e;
			for i in 0..n {
				t = if i % 2 == 0 { T::Array(Box::new(t)) } else { T::Tuple(vec![t]) };
				inner = around(if i % 2 == 0 { "" } else { ")" }, &inner);
			}
			return read(&t, &inner, false);
		}
	};
	read(&t, &around(if k == 2 { ")" } else { "" }, &inner), rt::choose(2) == 1);
}
/// arrays and tuples of numbers of every declared width (any 64-bit number): every hexadecimal text of the items, or (leniently) decimal items of 0 to 2 characters
fn c17_widths() {
	let (a, b) = (gen::wide(), gen::wide());
	let lenient = rt::choose(2) == 1;
	let n = if lenient { rt::choose(3) } else { rt::pick(&[63usize, 64]) };
	let x = if lenient { gen::over(n, b"0159-") } else { gen::over(n, b"0123456789abcdefABCDEF") };
	let y = if lenient { gen::over(1, b"0159-") } else { vec![b'7'; 64] };
	let inner = [&x[..], b",", &y[..]].concat();
	match rt::choose(3) {
		0 => read(&T::Array(Box::new(a)), &around("", &inner), lenient),
		1 => read(&T::FixedArray(Box::new(a), 2), &around("", &inner), lenient),
		_ => read(&T::Tuple(vec![a, b]), &around(")", &inner), lenient),
	}
}
/// 300 to 4097 items for an array, fixed array and tuple of as many, one more or one fewer; one item of 300 to 100000 characters
fn c17_huge() {
	let e = spec::ty("bool");
	let k = rt::choose(4);
	if k == 3 {
		let n = gen::thousands();
		let mut b = vec![b'x'; n];
		let at = rt::pick(&[0, n / 2, n - 1]);
		b[at] = gen::over(1, MARKS)[0];
		return read(&spec::ty("string[]"), &around("", &b), false);
	}
	let n = gen::hundreds();
	let mut inner = vec![];
	for i in 0..n {
		if i > 0 {
			inner.push(b',');
		}
		inner.push(b'0' + (i % 3 % 2) as u8);
	}
	let m = (n + 1).saturating_sub(rt::choose(3));
	let t = match k {
		0 => T::Array(Box::new(e)),
		1 => T::FixedArray(Box::new(e), m),
		_ => T::Tuple(vec![e; m]),
	};
	read(&t, &around(if k == 2 { ")" } else { "" }, &inner), rt::choose(2) == 1);
}
}
fn has_string(t: &T) -> bool {
	match t {
		T::String => true,
		T::Array(e) | T::FixedArray(e, _) => has_string(e),
		T::Tuple(v) => v.iter().any(has_string),
		_ => false,
	}
}
fn plain(v: &Token) -> bool {
	match v {
		Token::String(s) => {
			let mut ok = true;
			for c in s.as_bytes() {
				ok &= *c != b'[' && *c != b']' && *c != b'(' && *c != b')' && *c != b',' && *c != b'"';
			}
			ok
		}
		Token::Array(v) | Token::FixedArray(v) | Token::Tuple(v) => v.iter().all(plain),
		_ => true,
	}
}
/// one item whose text is empty cannot be told from no item
fn has_lone_empty(v: &Token) -> bool {
	match v {
		Token::Array(v) | Token::FixedArray(v) | Token::Tuple(v) => v.len() == 1 && spec::render(&v[0]).is_empty() || v.iter().any(has_lone_empty),
		_ => false,
	}
}
