use crate::{gen, rt, spec};
use ethabi::{
	token::{LenientTokenizer, StrictTokenizer, Tokenizer},
	ParamType as T, Token,
};

fn read(t: &T, b: &[u8]) {
	rt::linear(true);
	// one path each for a minus, a digit and anything else at the start
	match b.first() {
		Some(b'-') => rt::reach(2),
		Some(b'0'..=b'9') => rt::reach(3),
		_ => rt::reach(4),
	}
	let s = unsafe { std::str::from_utf8_unchecked(b) };
	let got = LenientTokenizer::tokenize(t, s);
	let want = spec::lenient(t, b);
	rt::reach(want.is_some() as u64);
	match (&got, &want) {
		(Ok(g), Some(w)) => check!(spec::tok_eq(g, w), "another value is read"),
		(Err(_), None) => {}
		(Ok(_), None) => check!(false, "a value is read from text that does not represent one"),
		(Err(_), Some(_)) => check!(false, "a representation is rejected"),
	}
	if let Ok(Token::Uint(x) | Token::Int(x)) = &got {
		rt::observe(&spec::word_of(x));
	}
}
fn number() -> T {
	spec::ty(rt::pick(&["uint256", "int256", "uint8", "int8"]))
}
const LIMITS: &[&str] = &[
	"115792089237316195423570985008687907853269984665640564039457584007913129639935", // 2^256-1
	"57896044618658097711785492504343953926634992332820282019728792003956564819967",  // 2^255-1
	"340282366920938463463374607431768211455",                                        // 2^128-1
	"6277101735386680763835789423207666416102355444464034512895",                     // 2^192-1
	"18446744073709551615",                                                           // 2^64-1
];

fn around(every: bool) {
	let t = spec::ty(rt::pick(&["uint256", "int256"]));
	let l = rt::pick(LIMITS).as_bytes();
	let n = l.len();
	let mut b = vec![];
	match rt::choose(3) {
		0 => {
			b.extend_from_slice(rt::pick(&["", "-", "0", "-00"]).as_bytes());
			let i = b.len() + if every { rt::choose(n) } else { rt::pick(&[0, 1, 2, n / 2, n - 2, n - 1]) };
			b.extend_from_slice(l);
			b[i] = gen::over(1, b"0123456789")[0];
		}
		1 => {
			b.extend_from_slice(gen::text(1).as_bytes());
			b.extend_from_slice(l);
		}
		_ => {
			b.extend_from_slice(l);
			b.extend_from_slice(gen::text(1).as_bytes());
		}
	}
	read(&t, &b);
}

/// the lenient reading is the strict one
fn strict(t: &T, b: &str) {
	read(t, b.as_bytes());
	let (g, w) = (LenientTokenizer::tokenize(t, b), StrictTokenizer::tokenize(t, b));
	match (g, w) {
		(Ok(g), Ok(w)) => check!(spec::tok_eq(&g, &w), "strict and lenient readings differ"),
		(Err(_), Err(_)) => {}
		_ => check!(false, "strict and lenient verdicts differ"),
	}
}

harness! {
/// numbers: every ASCII text of up to 10 characters
fn c16_short() {
	let t = number();
	let n = rt::choose(11);
	read(&t, gen::text(n).as_bytes());
}
/// every decimal number of 11 to 19 digits, with or without a minus
fn c16_digits() {
	let t = spec::ty(rt::pick(&["uint256", "int256"]));
	let n = 11 + rt::choose(9);
	let mut b = vec![];
	if rt::choose(2) == 1 {
		b.push(b'-');
	}
	b.extend_from_slice(&gen::over(n, b"0123456789"));
	read(&t, &b);
}
/// 2^64, 2^128, 2^192, 2^255 and 2^256 less one with the last 4 digits arbitrary, with or without a minus
fn c16_last() {
	let t = spec::ty(rt::pick(&["uint256", "int256"]));
	let l = rt::pick(LIMITS).as_bytes();
	let mut b = vec![];
	if rt::choose(2) == 1 {
		b.push(b'-');
	}
	b.extend_from_slice(&l[..l.len() - 4]);
	b.extend_from_slice(&gen::over(4, b"0123456789"));
	read(&t, &b);
}
/// the same with one digit (any of the first three, the middle one, any of the last two) arbitrary, after nothing, a minus, zeros or an arbitrary character, or before an arbitrary character
fn c16_around() {
	around(false);
}
/// the same with the arbitrary digit at every place
fn c16_around_t() {
	around(true);
}
/// every text of up to 6 characters over digits, signs, spaces, letters, separators, after 0x, - or zeros
fn c16_signs() {
	let t = number();
	let mut b = rt::pick(&["", "-", "--", "0x", "-0x", "+", "000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", "-00"]).as_bytes().to_vec();
	let n = rt::choose(7);
	b.extend_from_slice(&gen::over(n, b"0189-+ _xaAeE.,\""));
	read(&t, &b);
}
/// every text of 64 hexadecimal digits (which takes precedence over decimal), and texts of 62 to 66 characters, the first and the last two arbitrary
fn c16_hex() {
	let t = spec::ty(rt::pick(&["uint256", "int256"]));
	if rt::choose(2) == 0 {
		return read(&t, &gen::over(64, b"0123456789abcdefABCDEF"));
	}
	let n = 62 + rt::choose(5);
	let mut b = vec![b'7'; n];
	if rt::choose(2) == 0 {
		b[0] = gen::text(1).as_bytes()[0];
	} else {
		b[n - 2..].copy_from_slice(gen::text(2).as_bytes());
	}
	read(&t, &b);
}
/// texts with any character of 2, 3 or 4 bytes among digits
fn c16_unicode() {
	let t = number();
	let mut b = gen::over(rt::choose(3), b"0123456789-");
	b.extend_from_slice(gen::ch(2 + rt::choose(3)).as_bytes());
	let n = rt::choose(3);
	b.extend_from_slice(&gen::over(n, b"0123456789-"));
	read(&t, &b);
}
/// all other elementary types: the lenient reading is the strict one
fn c16_others() {
	let (t, n) = rt::pick(&[("address", 40), ("bool", 1), ("bool", 4), ("bool", 5), ("string", 6), ("bytes", 0), ("bytes", 6), ("bytes", 7), ("bytes3", 6), ("bytes3", 5), ("bytes32", 64)]);
	let t = spec::ty(t);
	let b = gen::text(n);
	strict(&t, &b);
}
/// decimal numbers of every length up to 90 digits: a leading 1, 5 or 9, an arbitrary last digit, the others all 0, all 9 or mixed; a minus or not, zeros in front or not
fn c16_lengths() {
	let t = spec::ty(rt::pick(&["uint256", "int256"]));
	let n = 1 + rt::choose(90);
	let f = rt::choose(3);
	let mut d: Vec<u8> = (0..n).map(|i| [b'0', b'9', b'0' + (i * 7 % 10) as u8][f]).collect();
	d[0] = rt::pick(b"159");
	d[n - 1] = gen::over(1, b"0123456789")[0];
	let mut b = rt::pick(&["", "-", "000", "-0000000000000000000000000000000000000000000000000000000000000000000000000000000000000000"]).as_bytes().to_vec();
	b.extend_from_slice(&d);
	read(&t, &b);
}
/// numbers of every declared width (any 64-bit number), signed and unsigned: every ASCII text of up to 4 characters, and every decimal number of 5 to 8 digits, with or without a minus
fn c16_widths() {
	let t = gen::wide();
	let n = rt::choose(9);
	if n < 5 {
		return read(&t, gen::text(n).as_bytes());
	}
	let mut b = rt::pick(&["", "-"]).as_bytes().to_vec();
	b.extend_from_slice(&gen::over(n, b"0123456789"));
	read(&t, &b);
}
/// numbers of every declared width: 2^63, 2^64, 2^127, 2^128, 2^255 and 2^256 less one with the last digit arbitrary, with or without a minus; 127, 255, 32767, 65535 likewise
fn c16_ranges() {
	let t = gen::wide();
	let l = rt::pick(&["127", "255", "32767", "65535", "9223372036854775807", "18446744073709551615", "170141183460469231731687303715884105727", "340282366920938463463374607431768211455", "57896044618658097711785492504343953926634992332820282019728792003956564819967", "115792089237316195423570985008687907853269984665640564039457584007913129639935"]).as_bytes();
	let mut b = rt::pick(&["", "-"]).as_bytes().to_vec();
	b.extend_from_slice(&l[..l.len() - 1]);
	b.extend_from_slice(&gen::over(1, b"0123456789"));
	read(&t, &b);
}
/// the other elementary types (fixed bytes of sizes 1, 2, 4, 8, 32 and 33): every ASCII text of up to 10 characters
fn c16_plain() {
	let t = spec::ty(rt::pick(&["address", "bool", "string", "bytes", "bytes1", "bytes2", "bytes4", "bytes8", "bytes32", "bytes33"]));
	strict(&t, &gen::text(rt::choose(11)));
}
/// exact texts of the other elementary types with a prefix or suffix of 1 or 2 arbitrary characters, or some left out
fn c16_affix() {
	let (t, x) = rt::pick(&[("address", "11223344556677889900aAbBcCdDeEfF00112233"), ("bool", "true"), ("bool", "0"), ("bytes4", "11223344"), ("bytes32", "aAbBcCdDeEfF00112233445566778899aAbBcCdDeEfF00112233445566778899"), ("bytes", "0011"), ("string", "\"a b\"")]);
	let n = gen::text(1 + rt::choose(2));
	let b = match rt::choose(3) {
		0 => spec::cat(&[&n, x]),
		1 => spec::cat(&[x, &n]),
		_ => x[..rt::choose(x.len())].to_string(),
	};
	strict(&spec::ty(t), &b);
}
}
