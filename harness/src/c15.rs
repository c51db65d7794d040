use crate::{gen, rt, spec};
use ethabi::{
	token::{LenientTokenizer, StrictTokenizer, Tokenizer},
	ParamType as T, Token,
};

/// the strict reading of the text is the value it denotes, or an error
fn read(t: &T, b: &[u8]) {
	let s = unsafe { std::str::from_utf8_unchecked(b) };
	let got = StrictTokenizer::tokenize(t, s);
	let want = spec::strict(t, b);
	rt::reach(want.is_some() as u64);
	verdict(&got, &want);
	if let Ok(g) = &got {
		check!(spec::conforms(g, t) && g.type_check(t), "the value does not conform to the type");
		if let Token::Bytes(b) | Token::FixedBytes(b) = g {
			rt::observe(b);
		}
	}
}
fn verdict<E>(got: &Result<Token, E>, want: &Option<Token>) {
	match (got, want) {
		(Ok(g), Some(w)) => check!(spec::tok_eq(g, w), "another value is read"),
		(Err(_), None) => {}
		(Ok(_), None) => check!(false, "a value is read from text that does not represent one"),
		(Err(_), Some(_)) => check!(false, "a clear representation is rejected"),
	}
}

harness! {
/// every elementary type, every ASCII text of up to 12 characters
fn c15_short() {
	let t = spec::ty(rt::pick(&["address", "uint256", "int256", "uint8", "int8", "bool", "string", "bytes", "bytes1", "bytes2", "bytes5"]));
	let n = rt::choose(13);
	read(&t, gen::text(n).as_bytes());
}
/// addresses, numbers and fixed bytes: every ASCII text of the exact length and of lengths around it
fn c15_exact() {
	let (t, n) = rt::pick(&[("address", 40), ("uint256", 64), ("uint8", 64), ("int256", 64), ("int64", 64), ("bytes20", 40), ("bytes32", 64), ("bytes33", 66), ("bytes", 64), ("bytes", 66), ("string", 64)]);
	let n = n + rt::choose(5) - 2;
	read(&spec::ty(t), gen::text(n).as_bytes());
}
/// exact texts with a prefix or suffix of 1 or 2 arbitrary characters (0x, spaces, quotes, signs), or some left out
fn c15_affix() {
	let (t, n) = rt::pick(&[("address", 40), ("uint256", 64), ("int256", 64), ("bytes32", 64), ("bytes", 32), ("bool", 4), ("bytes4", 8)]);
	let n = n - rt::choose(3);
	let mut b = gen::text(1 + rt::choose(2)).into_bytes();
	let x = if t == "bool" { rt::pick(&["true", "1", "false", "0"]).as_bytes().to_vec() } else { gen::over(n, b"0123456789abcdefABCDEF") };
	if rt::choose(2) == 0 {
		b.extend_from_slice(&x);
	} else {
		let mut y = x;
		y.extend_from_slice(&b);
		b = y;
	}
	read(&spec::ty(t), &b);
}
/// texts with any character of 2, 3 or 4 bytes, of byte lengths around the exact ones
fn c15_unicode() {
	let (t, n) = rt::pick(&[("address", 40), ("uint256", 64), ("int256", 64), ("bytes32", 64), ("bytes4", 8), ("bytes", 8), ("bool", 4), ("bool", 1), ("string", 8)]);
	let u = gen::ch(2 + rt::choose(3));
	let fill = (n + 1usize).saturating_sub(u.len() + rt::choose(3));
	let at = rt::pick(&[0, 1, fill / 2, fill]).min(fill);
	let x = gen::over(fill, b"01afAF");
	let mut b = x[..at].to_vec();
	b.extend_from_slice(u.as_bytes());
	b.extend_from_slice(&x[at..]);
	read(&spec::ty(t), &b);
}
/// every valid UTF-8 text of up to 4 bytes
fn c15_utf8() {
	let t = spec::ty(rt::pick(&["bool", "string", "bytes", "bytes2"]));
	let n = rt::choose(5);
	let b = rt::bytes(n);
	if std::str::from_utf8(&b).is_ok() {
		read(&t, &b);
	}
}
/// fixed bytes of every size up to 40, every text of 0 to 84 characters over digits and a non-digit at one place
fn c15_sizes() {
	let k = rt::choose(41);
	let d = rt::choose(5);
	rt::assume(2 * k + d >= 2);
	let n = 2 * k + d - 2;
	let mut b = gen::over(n, b"0123456789abcdefABCDEF");
	if n > 0 && rt::choose(2) == 1 {
		let i = rt::pick(&[0, n / 2, n - 1]);
		b[i] = rt::arr::<1>()[0] & 0x7f;
	}
	read(&T::FixedBytes(k), &b);
}
/// values survive: the 64-digit or exact hex rendering of every value reads back as the value, in either case of letters
fn c15_back() {
	let t = spec::ty(rt::pick(&["address", "uint256", "int256", "bytes32", "bytes3", "bytes", "bool", "string"]));
	let v = gen::shape(&[&[0], &[1], &[7], &[32]], gen::COUNTS).value(&t);
	let up = rt::choose(2) == 1;
	let raw = match &v {
		Token::Address(a) => a.0.to_vec(),
		Token::Uint(x) | Token::Int(x) => spec::word_of(x).to_vec(),
		Token::Bytes(b) | Token::FixedBytes(b) => b.clone(),
		_ => vec![],
	};
	let text = match &v {
		Token::Bool(b) => (if *b { "true" } else { "false" }).as_bytes().to_vec(),
		Token::String(s) => s.as_bytes().to_vec(),
		_ => spec::hex(&raw, up),
	};
	let s = unsafe { std::str::from_utf8_unchecked(&text) };
	verdict(&StrictTokenizer::tokenize(&t, s), &Some(v.clone()));
	verdict(&LenientTokenizer::tokenize(&t, s), &Some(v));
}
/// byte strings of 0 to 257 bytes (sizes as in gen::many) and fixed bytes as long, with a digit more, fewer or an arbitrary character at the start, the end or in the middle; strings as long
fn c15_many() {
	let n = gen::many();
	let t = match rt::choose(3) {
		0 => T::Bytes,
		1 => T::FixedBytes(n),
		_ => T::String,
	};
	let mut b = vec![b'a'; 2 * n];
	if n > 0 {
		match rt::choose(6) {
			0 => {}
			1 => b[0] = gen::text(1).as_bytes()[0],
			2 => b[n] = gen::text(1).as_bytes()[0],
			3 => b[2 * n - 1] = gen::text(1).as_bytes()[0],
			4 => b.push(gen::text(1).as_bytes()[0]),
			_ => {
				b.pop();
			}
		}
	}
	read(&t, &b);
}
/// numbers of every declared width (any 64-bit number), signed and unsigned: every ASCII text of 0 to 6 and 62 to 66 characters
fn c15_widths() {
	let t = gen::wide();
	let n = rt::pick(&[0usize, 1, 2, 3, 4, 6, 62, 63, 64, 65, 66]);
	read(&t, gen::text(n).as_bytes());
}
/// byte strings, fixed bytes and texts of 300 to 100000 bytes, whole, a character short, or the first, middle or last one arbitrary
fn c15_huge() {
	let n = if rt::choose(2) == 0 { gen::hundreds() } else { gen::thousands() };
	let t = match rt::choose(3) {
		0 => T::Bytes,
		1 => T::FixedBytes(n),
		_ => T::String,
	};
	let mut b: Vec<u8> = (0..2 * n).map(|i| b"0123456789abcdefABCDEF"[i % 22]).collect();
	match rt::choose(3) {
		0 => {}
		1 => {
			let at = rt::pick(&[0, n, 2 * n - 1]);
			b[at] = gen::text(1).as_bytes()[0];
		}
		_ => drop(b.pop()),
	}
	read(&t, &b);
}
}
