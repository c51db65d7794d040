use crate::{gen, rt, spec};
use ethabi::{
	param_type::{Reader, Writer},
	ParamType as T,
};

/// reading the text gives a type exactly when it names one, and that type
fn read(b: &[u8]) {
	let s = unsafe { std::str::from_utf8_unchecked(b) };
	let got = Reader::read(s);
	rt::reach(got.is_ok() as u64);
	let want = spec::read(b);
	match (got, want) {
		(Ok(g), Some(w)) => {
			check!(spec::ty_eq(&g, &w), "another type is read");
			if simple(&g) {
				check!(matches!(Reader::read(&Writer::write(&g)), Ok(x) if spec::ty_eq(&x, &g)), "the type read does not survive rendering and reading");
			}
		}
		(Err(_), None) => {}
		(Ok(_), None) => check!(false, "a type is read from text that names none"),
		(Err(_), Some(_)) => check!(false, "a type name is rejected"),
	}
}
/// rendering and reading again is left to concrete sizes (symbolic decimal rendering forks per digit)
fn simple(t: &T) -> bool {
	match t {
		T::Int(n) | T::Uint(n) | T::FixedBytes(n) => *n < 100,
		T::FixedArray(t, n) => *n < 10 && simple(t),
		T::Array(t) => simple(t),
		T::Tuple(v) => v.iter().all(simple),
		_ => true,
	}
}
fn ascii(n: usize) -> Vec<u8> {
	gen::text(n).into_bytes()
}

harness! {
/// every ASCII text of up to 8 characters
fn c09_any() {
	let n = rt::choose(9);
	read(&ascii(n));
}
/// every ASCII text of 9 characters
fn c09_any_t() {
	let n = 9;
	read(&ascii(n));
}
/// an elementary or composite name with up to 3 arbitrary ASCII characters before it, after it or inside it
fn c09_around() {
	let s = rt::pick(&["uint", "int8", "bool", "bytes", "bytes3", "string", "address", "tuple", "bool[]", "int[2]", "(bool)", "()", "(int8,string)", "((),bytes)", "(bool[2])[]"]).as_bytes();
	let n = rt::choose(4);
	let x = ascii(n);
	let at = rt::choose(s.len() + 1);
	rt::assume(n < 3 || at == 0 || at == s.len());
	let mut b = s[..at].to_vec();
	b.extend_from_slice(&x);
	b.extend_from_slice(&s[at..]);
	read(&b);
}
/// a composite name with any 1 or 2 of its characters replaced by anything (ASCII), and every prefix and suffix of it
fn c09_replaced() {
	let s = rt::pick(&["uint256", "bytes32[]", "bool[3][]", "((bool,int8)[2],string)", "(((bool)),(bytes,(int,string[])))"]).as_bytes();
	let mut b = s.to_vec();
	match rt::choose(4) {
		0 => b.truncate(rt::choose(s.len())),
		1 => {
			b.drain(..rt::choose(s.len() + 1));
		}
		2 => {
			let i = rt::choose(s.len());
			b[i] = rt::arr::<1>()[0] & 0x7f;
		}
		_ => {
			let i = rt::choose(s.len());
			let j = rt::choose(s.len());
			rt::assume(i < j && (j - i < 4 || i < 2 || j + 2 > s.len()));
			b[i] = rt::arr::<1>()[0] & 0x7f;
			b[j] = rt::arr::<1>()[0] & 0x7f;
		}
	}
	read(&b);
}
/// every text of up to 8 characters over ( ) [ ] , 1 with bool standing for a letter: all bracket structures
fn c09_brackets() {
	let n = rt::choose(9);
	let x = gen::over(n, b"()[],1b");
	// spell out the shape: each b becomes bool
	let mut b = vec![];
	for c in &x {
		if *c == b'b' {
			b.extend_from_slice(b"bool");
		} else {
			b.push(*c);
		}
	}
	read(&b);
}
/// every text of 9 and 10 characters over the same alphabet
fn c09_brackets_t() {
	let n = 9 + rt::choose(2);
	let x = gen::over(n, b"()[],1b");
	let mut b = vec![];
	for c in &x {
		if *c == b'b' {
			b.extend_from_slice(b"bool");
		} else {
			b.push(*c);
		}
	}
	read(&b);
}
/// sizes: up to 4 symbolic characters over digits, signs, spaces, letters; and digits around 2^64
fn c09_sizes() {
	let (a, z) = rt::pick(&[("uint", ""), ("int", ""), ("bytes", ""), ("bool[", "]"), ("(int", ")"), ("int8[2][", "]")]);
	let mut b = a.as_bytes().to_vec();
	if rt::choose(2) == 0 {
		let n = rt::choose(4);
		b.extend_from_slice(&gen::over(n, b"0189+- _xa.[]()"));
	} else {
		b.extend_from_slice(rt::pick(&[&b"184467440737095516"[..], b"1844674407370955161", b"429496729", b"0000000000000000000000"]));
		b.extend_from_slice(&gen::over(2, b"0123456789"));
	}
	b.extend_from_slice(z.as_bytes());
	read(&b);
}
/// any character of 2, 3 or 4 bytes at every place of a name, or instead of a character of it
fn c09_unicode() {
	let s = rt::pick(&["", "int8", "uint", "bytes", "bool[2]", "bool[]", "(bool,int)", "((bool))"]).as_bytes();
	let u = gen::ch(2 + rt::choose(3));
	let u = u.as_bytes();
	let at = rt::choose(s.len() + 1);
	let cut = rt::choose(2).min(s.len() - at);
	let mut b = s[..at].to_vec();
	b.extend_from_slice(u);
	b.extend_from_slice(&s[at + cut..]);
	read(&b);
}
/// every valid UTF-8 text of up to 3 bytes
fn c09_utf8() {
	let n = 1 + rt::choose(3);
	let b = rt::bytes(n);
	if std::str::from_utf8(&b).is_ok() {
		read(&b);
	}
}
/// the same texts read through JSON: never a panic, same verdict
fn c09_json() {
	let s = rt::pick(&["", "uint", "bytes3", "bool[]", "(bool)", "()", "(", ")", "]", "[", "[]", "(bool,int8", "tuple[2]", "()[", "(,)"]);
	let n = rt::choose(3);
	let x = gen::text(n);
	for c in x.as_bytes() {
		rt::assume(*c >= 32 && *c != b'"' && *c != b'\\');
	}
	let t = spec::cat(&[s, &x]);
	let got = serde_json::from_str::<T>(&spec::cat(&["\"", &t, "\""]));
	rt::reach(got.is_ok() as u64);
	match (got, spec::read(t.as_bytes())) {
		(Ok(g), Some(w)) => check!(spec::ty_eq(&g, &w), "another type is read"),
		(Err(_), None) => {}
		_ => check!(false, "verdict differs"),
	}
}
/// tuples of 0 to 257 components, texts nested or suffixed as deep as 34, names with as many characters, each whole or with one arbitrary character at the start, the end or in the middle
fn c09_many() {
	let n = gen::many();
	let mut s = String::new();
	match rt::choose(5) {
		0 => {
			s.push('(');
			for i in 0..n {
				if i > 0 {
					s.push(',');
				}
				s.push_str(["int8", "string[]", "(bool)"][i % 3]);
			}
			s.push(')');
		}
		1 => {
			rt::assume(n <= 34);
			for _ in 0..n {
				s.push('(');
			}
			s.push_str("bool");
			for _ in 0..n {
				s.push(')');
			}
		}
		2 => {
			rt::assume(n <= 34);
			s.push_str("bytes");
			for i in 0..n {
				s.push_str(["[]", "[3]"][i % 2]);
			}
		}
		3 => {
			s.push_str("uint");
			for _ in 0..n {
				s.push('0');
			}
			s.push('8');
		}
		_ => {
			for _ in 0..n {
				s.push('b');
			}
		}
	}
	let mut b = s.into_bytes();
	let m = b.len();
	if m > 0 {
		match rt::choose(6) {
			0 => {}
			1 => b[0] = ascii(1)[0],
			2 => b[m / 2] = ascii(1)[0],
			3 => b[m - 1] = ascii(1)[0],
			4 => b.push(ascii(1)[0]),
			_ => {
				b.pop();
			}
		}
	}
	read(&b);
}
/// an elementary or composite name with 4 to 14 arbitrary letters, spaces and other characters (anything but digits, brackets and commas) before or after it
fn c09_words() {
	let s = rt::pick(&["", "uint", "int8", "bool", "bytes", "bytes3", "string", "address", "tuple", "bool[]", "(bool)"]).as_bytes();
	let n = 4 + rt::choose(11);
	let x = ascii(n);
	for c in &x {
		rt::assume(!(*c >= b'0' && *c <= b'9' || *c == b'(' || *c == b')' || *c == b'[' || *c == b']' || *c == b','));
	}
	read(&if rt::choose(2) == 0 { [s, &x].concat() } else { [&x, s].concat() });
}
/// texts of 20, 33, 41, 65, 100 and 257 characters whose first or last 10 are arbitrary (anything but digits, brackets and commas), the others letters or a name
fn c09_long() {
	let n = rt::pick(&[20usize, 33, 41, 65, 100, 257]);
	let x = ascii(10);
	for c in &x {
		rt::assume(!(*c >= b'0' && *c <= b'9' || *c == b'(' || *c == b')' || *c == b'[' || *c == b']' || *c == b','));
	}
	let fill = rt::pick(&["o", " F", "int", "[]", "0"]).repeat(n);
	let fill = &fill.as_bytes()[..(n - 10) / 2 * 2];
	read(&if rt::choose(2) == 0 { [&x, fill].concat() } else { [fill, &x].concat() });
}
}
