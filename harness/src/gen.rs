//! Generators: types by enumerated choice, values with symbolic contents.
use crate::rt;
use ethabi::{ParamType as T, Token};

/// every kind of elementary type
pub const ALL: &[&str] = &["uint256", "address", "bool", "int8", "bytes1", "bytes32", "string", "bytes", "bytes31", "uint8", "int256", "bytes33"];
/// one of each layout class
pub const FEW: &[&str] = &["uint256", "bytes5", "string", "bool"];
pub const TWO: &[&str] = &["address", "bytes"];

/// All types with exactly `n` nodes over the given leaves, fixed arrays of the given sizes.
pub fn ty(n: usize, leaves: &[&str], ks: &[usize]) -> T {
	if n == 1 {
		return crate::spec::ty(rt::pick(leaves));
	}
	match rt::choose(2 + ks.len()) {
		0 => T::Array(Box::new(ty(n - 1, leaves, ks))),
		1 => T::Tuple(list(n - 1, leaves, ks)),
		i => {
			let k = ks[i - 2];
			T::FixedArray(Box::new(ty(n - 1, leaves, ks)), k)
		}
	}
}
/// All lists of types with exactly `n` nodes in total.
pub fn list(n: usize, leaves: &[&str], ks: &[usize]) -> Vec<T> {
	let mut v = vec![];
	let mut left = n;
	while left > 0 {
		let s = 1 + rt::choose(left);
		v.push(ty(s, leaves, ks));
		left -= s;
	}
	v
}

/// How long byte strings, texts and dynamic arrays are: one pattern for each, chosen when first
/// needed and cycled through.
pub struct Shape {
	pub lens: &'static [&'static [usize]],
	pub counts: &'static [&'static [usize]],
	pub l: Option<&'static [usize]>,
	pub c: Option<&'static [usize]>,
	/// contents all zero instead of symbolic
	pub zero: bool,
	pub i: usize,
	pub j: usize,
}
pub const LENS: &[&[usize]] = &[&[0], &[1], &[32], &[33, 0, 31, 64]];
pub const COUNTS: &[&[usize]] = &[&[0], &[1], &[2, 1, 0], &[3]];
pub fn shape(lens: &'static [&'static [usize]], counts: &'static [&'static [usize]]) -> Shape {
	Shape { lens, counts, l: None, c: None, zero: false, i: 0, j: 0 }
}
impl Shape {
	fn len(&mut self) -> usize {
		if self.l.is_none() {
			self.l = Some(rt::pick(self.lens));
		}
		let p = self.l.unwrap();
		self.i += 1;
		p[(self.i - 1) % p.len()]
	}
	fn count(&mut self) -> usize {
		if self.c.is_none() {
			self.c = Some(rt::pick(self.counts));
		}
		let p = self.c.unwrap();
		self.j += 1;
		p[(self.j - 1) % p.len()]
	}
	pub fn value(&mut self, t: &T) -> Token {
		match t {
			T::Address if self.zero => Token::Address(Default::default()),
			T::Bool if self.zero => Token::Bool(false),
			T::Int(_) if self.zero => Token::Int(0.into()),
			T::Uint(_) if self.zero => Token::Uint(0.into()),
			T::FixedBytes(n) if self.zero => Token::FixedBytes(vec![0; *n]),
			T::Bytes if self.zero => Token::Bytes(vec![0; self.len()]),
			T::String if self.zero => Token::String("0".repeat(self.len())),
			T::Address => Token::Address(ethabi::ethereum_types::H160(rt::arr())),
			T::Bool => Token::Bool(rt::arr::<1>()[0] & 1 == 1),
			T::Int(_) => Token::Int(crate::spec::uint_of(&rt::arr::<32>())),
			T::Uint(_) => Token::Uint(crate::spec::uint_of(&rt::arr::<32>())),
			T::FixedBytes(n) => Token::FixedBytes(rt::bytes(*n)),
			T::Bytes => Token::Bytes(rt::bytes(self.len())),
			T::String => Token::String(text(self.len())),
			T::Array(e) => {
				let n = self.count();
				let mut v = vec![];
				for _ in 0..n {
					v.push(self.value(e));
				}
				Token::Array(v)
			}
			T::FixedArray(e, n) => {
				let mut v = vec![];
				for _ in 0..*n {
					v.push(self.value(e));
				}
				Token::FixedArray(v)
			}
			T::Tuple(ts) => Token::Tuple(self.values(ts)),
		}
	}
	pub fn values(&mut self, ts: &[T]) -> Vec<Token> {
		let mut v = vec![];
		for t in ts {
			v.push(self.value(t));
		}
		v
	}
}
/// A symbolic value of type `t` with the given length of byte strings and count of array elements.
pub fn sized(t: &T, len: usize, count: usize) -> Token {
	match t {
		T::Bytes => Token::Bytes(rt::bytes(len)),
		T::String => Token::String(text(len)),
		T::Array(e) => {
			let mut v = vec![];
			for _ in 0..count {
				v.push(sized(e, len, count));
			}
			Token::Array(v)
		}
		T::FixedArray(e, n) => {
			let mut v = vec![];
			for _ in 0..*n {
				v.push(sized(e, len, count));
			}
			Token::FixedArray(v)
		}
		T::Tuple(ts) => Token::Tuple(ts.iter().map(|t| sized(t, len, count)).collect()),
		_ => shape(LENS, COUNTS).value(t),
	}
}
/// n symbolic ASCII characters
pub fn text(n: usize) -> String {
	let b = rt::bytes(n);
	for x in &b {
		rt::assume(*x < 0x80);
	}
	unsafe { String::from_utf8_unchecked(b) }
}
/// one arbitrary character whose encoding takes n bytes
pub fn ch(n: usize) -> String {
	if n < 2 {
		return text(n);
	}
	let b = rt::bytes(n);
	for x in &b[1..] {
		rt::assume(*x & 0xc0 == 0x80);
	}
	match n {
		2 => rt::assume((b[0] >= 0xc2) & (b[0] < 0xe0)),
		3 => rt::assume((b[0] & 0xf0 == 0xe0) & !((b[0] == 0xe0) & (b[1] < 0xa0)) & !((b[0] == 0xed) & (b[1] >= 0xa0))),
		_ => rt::assume((b[0] >= 0xf0) & (b[0] <= 0xf4) & !((b[0] == 0xf0) & (b[1] < 0x90)) & !((b[0] == 0xf4) & (b[1] >= 0x90))),
	}
	unsafe { String::from_utf8_unchecked(b) }
}
/// Up to four arbitrary characters, of every combination of encoded lengths for two of them, with single bytes between.
pub fn mixed() -> String {
	let mut s = String::new();
	for _ in 0..2 {
		s.push_str(&text(1));
		s.push_str(&ch(rt::choose(5)));
	}
	if rt::choose(2) == 1 {
		s.remove(0);
	}
	s
}
/// symbolic bytes restricted to a small alphabet
pub fn over(n: usize, alphabet: &[u8]) -> Vec<u8> {
	let b = rt::bytes(n);
	for x in &b {
		let mut ok = false;
		for a in alphabet {
			ok |= x == a;
		}
		rt::assume(ok);
	}
	b
}
/// an encoding of values of the types with one word replaced by unconstrained bytes, possibly cut short
pub fn corrupt(ts: &[T], lens: &'static [&'static [usize]], counts: &'static [&'static [usize]], cuts: &[usize], symbolic: bool) -> Vec<u8> {
	let mut sh = shape(lens, counts);
	sh.zero = !symbolic;
	let v = sh.values(ts);
	let mut e = crate::spec::enc(&v);
	let words = e.len() / 32;
	if words > 0 {
		let w = rt::choose(words);
		e[32 * w..32 * w + 32].copy_from_slice(&rt::arr::<32>());
	}
	let cut = rt::pick(cuts).min(e.len());
	let n = e.len() - cut;
	e.truncate(n);
	e
}
/// arrays whose elements take no room are outside the property
pub fn zero_array(ts: &[T]) -> bool {
	ts.iter().any(|t| match t {
		T::Array(e) => crate::spec::static_size(e) == 0 && !crate::spec::dynamic(e) || zero_array(std::slice::from_ref(&**e)),
		T::FixedArray(e, _) => zero_array(std::slice::from_ref(&**e)),
		T::Tuple(v) => zero_array(v),
		_ => false,
	})
}
/// number of nodes of a list of values
pub fn nodes(v: &[Token]) -> usize {
	v.iter()
		.map(|t| {
			1 + match t {
				Token::Array(v) | Token::FixedArray(v) | Token::Tuple(v) => nodes(v),
				_ => 0,
			}
		})
		.sum()
}
/// change the k-th node in one way
pub fn change(v: &mut [Token], k: &mut usize) {
	for t in v.iter_mut() {
		if *k == 0 {
			let old = std::mem::replace(t, Token::Bool(false));
			*t = match old {
				Token::Array(mut x) | Token::FixedArray(mut x) | Token::Tuple(mut x) => {
					match rt::choose(5) {
						0 => {}
						1 => {
							x.pop();
						}
						2 => {
							let y = x.last().cloned().unwrap_or(Token::Bool(true));
							x.push(y);
						}
						3 => x.push(Token::Bool(true)),
						_ => x.reverse(),
					}
					match rt::choose(3) {
						0 => Token::Array(x),
						1 => Token::FixedArray(x),
						_ => Token::Tuple(x),
					}
				}
				Token::FixedBytes(mut b) => match rt::choose(3) {
					0 => Token::Bytes(b),
					1 => {
						b.push(1);
						Token::FixedBytes(b)
					}
					_ => {
						b.pop();
						Token::FixedBytes(b)
					}
				},
				Token::Address(_) => Token::Uint(7.into()),
				Token::Uint(x) => Token::Int(x),
				Token::Int(x) => Token::Uint(x),
				Token::Bytes(b) => {
					if rt::choose(2) == 0 {
						Token::FixedBytes(b)
					} else {
						Token::String(String::new())
					}
				}
				Token::String(_) => Token::Bytes(vec![]),
				Token::Bool(_) => Token::Uint(1.into()),
			};
			*k = usize::MAX;
			return;
		}
		*k -= 1;
		if let Token::Array(x) | Token::FixedArray(x) | Token::Tuple(x) = t {
			change(x, k);
			if *k == usize::MAX {
				return;
			}
		}
	}
}


/// a list of values changed in one way or not at all: a value missing, added, all gone, in other order, or one node changed
pub fn altered(v: &mut Vec<Token>) {
	let k = rt::choose(nodes(v) + 7);
	match k {
		0 => {}
		1 => v.push(Token::Bool(true)),
		2 => {
			v.pop();
		}
		3 => v.clear(),
		4 => {
			if !v.is_empty() {
				v.remove(0);
			}
		}
		5 => v.reverse(),
		6 => {
			let x = v.last().cloned().unwrap_or(Token::Uint(3.into()));
			v.push(x);
		}
		_ => change(v, &mut (k - 7)),
	}
}
/// a signed or unsigned number type of any declared width
pub fn wide() -> T {
	let k = u64::from_le_bytes(rt::arr()) as usize;
	if rt::choose(2) == 0 {
		T::Int(k)
	} else {
		T::Uint(k)
	}
}
/// number types of any width alone, in arrays, fixed arrays and tuples, next to other parameters
pub fn wides() -> Vec<T> {
	let (a, b) = (wide(), wide());
	match rt::choose(7) {
		0 => vec![a],
		1 => vec![a, b],
		2 => vec![T::Array(Box::new(a)), b],
		3 => vec![T::FixedArray(Box::new(a), 2), T::String],
		4 => vec![T::Bytes, T::Tuple(vec![a, T::String, b])],
		5 => vec![T::Array(Box::new(T::Tuple(vec![a, b]))), T::Bool],
		_ => vec![T::Tuple(vec![a, b])],
	}
}
/// one to 24, 32 or 33 types, all the same but one, which can be anywhere
pub fn odd() -> Vec<T> {
	let n = rt::pick(&[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 32, 33]);
	let (a, b) = rt::pick(&[("bool", "string"), ("string", "uint256"), ("uint256", "(bool,bytes)"), ("bytes", "bool[2]")]);
	let mut v = vec![crate::spec::ty(a); n];
	v[rt::choose(n)] = crate::spec::ty(b);
	v
}
/// 0..=24, 30..=34, 40, 63..=65, 100, 127..=129, 255..=257
pub fn many() -> usize {
	rt::pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 30, 31, 32, 33, 34, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257])
}
/// a few hundred to a few thousand: around powers of two and ten
pub fn hundreds() -> usize {
	rt::pick(&[300, 500, 511, 512, 513, 768, 1000, 1001, 1023, 1024, 1025, 2000, 2048, 2049, 4096, 4097])
}
/// thousands, around powers of two and ten
pub fn thousands() -> usize {
	rt::pick(&[5000, 8192, 10000, 16384, 32767, 32768, 65535, 65536, 65537, 100000])
}
/// n bytes, all different nearby, the first, middle and last symbolic
fn filled(n: usize) -> Vec<u8> {
	let mut v: Vec<u8> = (0..n).map(|i| (i % 94) as u8 + 32).collect();
	for (i, b) in [0, n / 2, n - 1].iter().zip(text(3).bytes()) {
		v[*i] = b;
	}
	v
}
/// a large value and its types: a byte string or text of 300 to 100000 bytes, an array, fixed array, tuple or list of 300 to 4097 values, alone or with others before and after
pub fn huge() -> (Vec<T>, Vec<Token>) {
	rt::alloc_limit(1 << 27);
	let k = rt::choose(9);
	let n = if k < 3 && rt::choose(2) == 0 { thousands() } else { hundreds() };
	let num = |i: usize| Token::Uint((i as u64).wrapping_mul(0x9e3779b97f4a7c15).into());
	let (t, v) = match k {
		0 => (T::Bytes, Token::Bytes(filled(n))),
		1 => (T::String, Token::String(unsafe { String::from_utf8_unchecked(filled(n)) })),
		2 => (T::FixedBytes(n), Token::FixedBytes(filled(n))),
		3 => (T::Array(Box::new(T::Uint(256))), Token::Array((0..n).map(num).collect())),
		4 => (T::FixedArray(Box::new(T::Uint(64)), n), Token::FixedArray((0..n).map(num).collect())),
		5 => (T::Array(Box::new(T::String)), Token::Array((0..n).map(|i| Token::String("ab"[..i % 3].into())).collect())),
		6 => (T::Array(Box::new(T::Tuple(vec![T::Bool, T::Bytes]))), Token::Array((0..n).map(|i| Token::Tuple(vec![Token::Bool(i % 2 == 0), Token::Bytes(vec![i as u8; i % 4])])).collect())),
		7 => (T::Tuple((0..n).map(|i| if i % 5 == 4 { T::String } else { T::Uint(8) }).collect()), Token::Tuple((0..n).map(|i| if i % 5 == 4 { Token::String("xy"[..i % 3].into()) } else { num(i) }).collect())),
		_ => return ((0..n).map(|i| if i % 7 == 3 { T::Bytes } else { T::Uint(256) }).collect(), (0..n).map(|i| if i % 7 == 3 { Token::Bytes(vec![i as u8; i % 3]) } else { num(i) }).collect()),
	};
	if rt::choose(2) == 0 {
		(vec![t], vec![v])
	} else {
		(vec![T::Bool, t, T::String], vec![Token::Bool(true), v, Token::String("end".into())])
	}
}
pub fn params(ts: &[T]) -> Vec<ethabi::Param> {
	ts.iter().enumerate().map(|(i, t)| ethabi::Param { name: if i % 2 == 0 { String::new() } else { "p".into() }, kind: t.clone(), internal_type: None }).collect()
}
pub fn function(name: &str, ins: &[T], outs: &[T]) -> ethabi::Function {
	ethabi::Function { name: name.into(), inputs: params(ins), outputs: params(outs), constant: false, state_mutability: Default::default() }
}
/// a name: 0..=n symbolic ASCII characters, or one of a few fixed ones
pub fn any_name(n: usize) -> String {
	match rt::choose(3) {
		0 => text(rt::choose(n + 1)),
		1 => crate::spec::cat(&["a", &ch(2 + rt::choose(3)), "b"]),
		_ => rt::pick(&["transfer", "f_1$", "\u{e9}t\u{e9}", "a(b", "function", "a very long name, longer than the block of the hash function, so that it takes two: aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"]).to_string(),
	}
}
