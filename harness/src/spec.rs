//! The oracle: what the Solidity ABI specification says, written independently of the library.
use ethabi::{ParamType as T, Token};

/// Parse a type written in the canonical notation. Harness-internal: input is always a literal.
pub fn ty(s: &str) -> T {
	let mut i = 0;
	let b = s.as_bytes();
	let t = ty_at(b, &mut i);
	assert!(i == b.len());
	t
}
fn num(b: &[u8], i: &mut usize) -> usize {
	let mut n = 0;
	while *i < b.len() && b[*i].is_ascii_digit() {
		n = n * 10 + (b[*i] - b'0') as usize;
		*i += 1;
	}
	n
}
fn ty_at(b: &[u8], i: &mut usize) -> T {
	let mut t = if b[*i] == b'(' {
		*i += 1;
		let mut v = vec![];
		while b[*i] != b')' {
			v.push(ty_at(b, i));
			if b[*i] == b',' {
				*i += 1;
			}
		}
		*i += 1;
		T::Tuple(v)
	} else {
		let st = *i;
		while *i < b.len() && b[*i].is_ascii_lowercase() {
			*i += 1;
		}
		let w = &b[st..*i];
		let has = *i < b.len() && b[*i].is_ascii_digit();
		let n = num(b, i);
		match w {
			b"address" => T::Address,
			b"bool" => T::Bool,
			b"string" => T::String,
			b"bytes" if !has => T::Bytes,
			b"bytes" => T::FixedBytes(n),
			b"int" => T::Int(if has { n } else { 256 }),
			b"uint" => T::Uint(if has { n } else { 256 }),
			_ => panic!("harness: bad type literal"),
		}
	};
	while *i < b.len() && b[*i] == b'[' {
		*i += 1;
		t = if b[*i] == b']' {
			T::Array(Box::new(t))
		} else {
			let n = num(b, i);
			T::FixedArray(Box::new(t), n)
		};
		*i += 1;
	}
	t
}
pub fn tys(s: &str) -> Vec<T> {
	match ty(s) {
		T::Tuple(v) => v,
		_ => panic!("harness: list expected"),
	}
}

pub fn dec(n: usize) -> String {
	if n == 0 {
		return "0".into();
	}
	let mut v = vec![];
	let mut n = n;
	while n > 0 {
		v.push(b'0' + (n % 10) as u8);
		n /= 10;
	}
	v.reverse();
	String::from_utf8(v).unwrap()
}
/// canonical name
pub fn name(t: &T) -> String {
	match t {
		T::Address => "address".to_string(),
		T::Bool => "bool".to_string(),
		T::String => "string".to_string(),
		T::Bytes => "bytes".to_string(),
		T::FixedBytes(n) => cat(&["bytes", &dec(*n)]),
		T::Int(n) => cat(&["int", &dec(*n)]),
		T::Uint(n) => cat(&["uint", &dec(*n)]),
		T::Array(t) => cat(&[&name(t), "[]"]),
		T::FixedArray(t, n) => cat(&[&name(t), "[", &dec(*n), "]"]),
		T::Tuple(v) => {
			let mut s = String::from("(");
			for (i, t) in v.iter().enumerate() {
				if i > 0 {
					s.push(',');
				}
				s.push_str(&name(t));
			}
			s.push(')');
			s
		}
	}
}
pub fn cat(p: &[&str]) -> String {
	let mut s = String::new();
	for x in p {
		s.push_str(x);
	}
	s
}
pub fn ty_eq(a: &T, b: &T) -> bool {
	match (a, b) {
		(T::Address, T::Address) | (T::Bool, T::Bool) | (T::String, T::String) | (T::Bytes, T::Bytes) => true,
		(T::FixedBytes(x), T::FixedBytes(y)) | (T::Int(x), T::Int(y)) | (T::Uint(x), T::Uint(y)) => x == y,
		(T::Array(x), T::Array(y)) => ty_eq(x, y),
		(T::FixedArray(x, n), T::FixedArray(y, m)) => n == m && ty_eq(x, y),
		(T::Tuple(x), T::Tuple(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| ty_eq(p, q)),
		_ => false,
	}
}

pub fn word_of(x: &ethabi::Uint) -> [u8; 32] {
	let mut w = [0u8; 32];
	for i in 0..4 {
		let l = x.0[i].to_be_bytes();
		w[24 - 8 * i..32 - 8 * i].copy_from_slice(&l);
	}
	w
}
pub fn uint_of(w: &[u8]) -> ethabi::Uint {
	let mut l = [0u64; 4];
	for i in 0..4 {
		let mut b = [0u8; 8];
		b.copy_from_slice(&w[24 - 8 * i..32 - 8 * i]);
		l[i] = u64::from_be_bytes(b);
	}
	ethabi::ethereum_types::U256(l)
}
pub fn num_word(n: usize) -> [u8; 32] {
	let mut w = [0u8; 32];
	w[24..].copy_from_slice(&(n as u64).to_be_bytes());
	w
}

/// Structure (kinds and lengths) and contents of a value.
fn flat(t: &Token, shape: &mut Vec<u64>, out: &mut Vec<u8>) {
	match t {
		Token::Address(x) => {
			shape.push(1);
			out.extend_from_slice(&x.0);
		}
		Token::FixedBytes(x) => {
			shape.push(2);
			shape.push(x.len() as u64);
			out.extend_from_slice(x);
		}
		Token::Bytes(x) => {
			shape.push(3);
			shape.push(x.len() as u64);
			out.extend_from_slice(x);
		}
		Token::Int(x) => {
			shape.push(4);
			out.extend_from_slice(&word_of(x));
		}
		Token::Uint(x) => {
			shape.push(5);
			out.extend_from_slice(&word_of(x));
		}
		Token::Bool(x) => {
			shape.push(6);
			out.push(*x as u8);
		}
		Token::String(x) => {
			shape.push(7);
			shape.push(x.len() as u64);
			out.extend_from_slice(x.as_bytes());
		}
		Token::FixedArray(v) | Token::Array(v) | Token::Tuple(v) => {
			shape.push(match t {
				Token::FixedArray(_) => 8,
				Token::Array(_) => 9,
				_ => 10,
			});
			shape.push(v.len() as u64);
			for x in v {
				flat(x, shape, out);
			}
		}
	}
}
/// Equality of values: same structure and same contents, the latter as one formula.
pub fn toks_eq(a: &[Token], b: &[Token]) -> bool {
	let (mut sa, mut sb, mut xa, mut xb) = (vec![], vec![], vec![], vec![]);
	for t in a {
		flat(t, &mut sa, &mut xa);
	}
	for t in b {
		flat(t, &mut sb, &mut xb);
	}
	a.len() == b.len() && sa == sb && crate::rt::same(&xa, &xb)
}
pub fn tok_eq(a: &Token, b: &Token) -> bool {
	toks_eq(std::slice::from_ref(a), std::slice::from_ref(b))
}

pub fn tok_dynamic(t: &Token) -> bool {
	match t {
		Token::Bytes(_) | Token::String(_) | Token::Array(_) => true,
		Token::FixedArray(v) | Token::Tuple(v) => v.iter().any(tok_dynamic),
		_ => false,
	}
}
pub fn dynamic(t: &T) -> bool {
	match t {
		T::Bytes | T::String | T::Array(_) => true,
		T::FixedArray(t, n) => *n > 0 && dynamic(t),
		T::Tuple(v) => v.iter().any(dynamic),
		_ => false,
	}
}
fn right_pad(b: &[u8], out: &mut Vec<u8>) {
	out.extend_from_slice(b);
	while out.len() % 32 != 0 {
		out.push(0);
	}
}
/// enc(X) of the specification for one value (content without its own offset word)
fn enc1(t: &Token, out: &mut Vec<u8>) {
	match t {
		Token::Address(a) => {
			out.extend_from_slice(&[0; 12]);
			out.extend_from_slice(&a.0);
		}
		Token::Int(x) | Token::Uint(x) => out.extend_from_slice(&word_of(x)),
		Token::Bool(b) => {
			out.extend_from_slice(&[0; 31]);
			out.push(*b as u8);
		}
		Token::FixedBytes(b) => right_pad(b, out),
		Token::Bytes(b) => {
			out.extend_from_slice(&num_word(b.len()));
			right_pad(b, out);
		}
		Token::String(s) => {
			out.extend_from_slice(&num_word(s.len()));
			right_pad(s.as_bytes(), out);
		}
		Token::Array(v) => {
			out.extend_from_slice(&num_word(v.len()));
			out.extend_from_slice(&enc(v));
		}
		Token::FixedArray(v) | Token::Tuple(v) => out.extend_from_slice(&enc(v)),
	}
}
/// The encoding of a list of values: heads, then tails.
pub fn enc(v: &[Token]) -> Vec<u8> {
	let mut parts = vec![];
	let mut heads = 0;
	for t in v {
		let mut p = vec![];
		enc1(t, &mut p);
		let d = tok_dynamic(t);
		heads += if d { 32 } else { p.len() };
		parts.push((d, p));
	}
	let mut out = vec![];
	let mut at = heads;
	for (d, p) in &parts {
		if *d {
			out.extend_from_slice(&num_word(at));
			at += p.len();
		} else {
			out.extend_from_slice(p);
		}
	}
	for (d, p) in &parts {
		if *d {
			out.extend_from_slice(p);
		}
	}
	out
}

/// Does the value conform to the type?
pub fn conforms(t: &Token, p: &T) -> bool {
	match (t, p) {
		(Token::Address(_), T::Address) | (Token::Bool(_), T::Bool) | (Token::String(_), T::String) | (Token::Bytes(_), T::Bytes) => true,
		(Token::Int(_), T::Int(_)) | (Token::Uint(_), T::Uint(_)) => true,
		(Token::FixedBytes(b), T::FixedBytes(n)) => b.len() <= *n && (b.len() + 31) / 32 == (n + 31) / 32,
		(Token::Array(v), T::Array(e)) => v.iter().all(|x| conforms(x, e)),
		(Token::FixedArray(v), T::FixedArray(e, n)) => v.len() == *n && v.iter().all(|x| conforms(x, e)),
		(Token::Tuple(v), T::Tuple(e)) => v.len() == e.len() && v.iter().zip(e).all(|(x, y)| conforms(x, y)),
		_ => false,
	}
}
pub fn conform(v: &[Token], p: &[T]) -> bool {
	v.len() == p.len() && v.iter().zip(p).all(|(x, y)| conforms(x, y))
}

/// Bytes a static type occupies.
pub fn static_size(t: &T) -> usize {
	match t {
		T::FixedBytes(n) => (n + 31) / 32 * 32,
		T::FixedArray(t, n) => n * static_size(t),
		T::Tuple(v) => v.iter().map(static_size).sum(),
		_ => 32,
	}
}

/// What decoding must yield: the value the layout assigns, or None where it must be an error.
pub struct Dec<'a> {
	pub data: &'a [u8],
	/// remaining number of values to produce before giving up (None results after that are not meaningful)
	pub fuel: usize,
	pub exhausted: bool,
}
impl<'a> Dec<'a> {
	pub fn word(&self, at: usize) -> Option<&'a [u8]> {
		if at + 32 > self.data.len() {
			return None;
		}
		Some(&self.data[at..at + 32])
	}
	/// an offset or length word
	pub fn number(&self, at: usize) -> Option<usize> {
		let w = self.word(at)?;
		let mut hi = 0u8;
		for b in &w[..28] {
			hi |= *b;
		}
		if hi != 0 {
			return None;
		}
		Some(u32::from_be_bytes([w[28], w[29], w[30], w[31]]) as usize)
	}
	/// value of type `t` whose head lies at `base + pos`, offsets counting from `base`
	pub fn value(&mut self, t: &T, base: usize, pos: usize) -> Option<Token> {
		if self.fuel == 0 {
			self.exhausted = true;
			return None;
		}
		self.fuel -= 1;
		if !dynamic(t) {
			return self.fixed(t, base + pos);
		}
		let off = self.number(base + pos)?;
		let at = base + off;
		match t {
			T::Bytes | T::String => {
				let n = self.number(at)?;
				let st = at + 32;
				if st + n > self.data.len() {
					return None;
				}
				let n = crate::rt::conc(n);
				let st = crate::rt::conc(st);
				let b = &self.data[st..st + n];
				Some(if let T::Bytes = t { Token::Bytes(b.to_vec()) } else { Token::String(lossy(b)) })
			}
			T::Array(e) => {
				let n = self.number(at)?;
				let st = at + 32;
				let mut v = vec![];
				let step = if dynamic(e) { 32 } else { static_size(e) };
				for i in 0..n {
					v.push(self.value(e, st, i * step)?);
				}
				Some(Token::Array(v))
			}
			T::FixedArray(e, n) => {
				if at > self.data.len() {
					return None;
				}
				let mut v = vec![];
				for i in 0..*n {
					v.push(self.value(e, at, i * 32)?);
				}
				Some(Token::FixedArray(v))
			}
			T::Tuple(ts) => {
				if at > self.data.len() {
					return None;
				}
				Some(Token::Tuple(self.list(ts, at)?))
			}
			_ => unreachable!(),
		}
	}
	fn fixed(&mut self, t: &T, at: usize) -> Option<Token> {
		Some(match t {
			T::Address => {
				let mut a = [0; 20];
				a.copy_from_slice(&self.word(at)?[12..]);
				Token::Address(ethabi::ethereum_types::H160(a))
			}
			T::Int(_) => Token::Int(uint_of(self.word(at)?)),
			T::Uint(_) => Token::Uint(uint_of(self.word(at)?)),
			T::Bool => {
				let w = self.word(at)?;
				let mut hi = 0u8;
				for b in &w[..31] {
					hi |= *b;
				}
				if hi != 0 {
					return None;
				}
				Token::Bool(w[31] == 1)
			}
			T::FixedBytes(n) => {
				if at + n > self.data.len() {
					return None;
				}
				Token::FixedBytes(self.data[at..at + n].to_vec())
			}
			T::FixedArray(e, n) => {
				let mut v = vec![];
				let s = static_size(e);
				for i in 0..*n {
					v.push(self.fixed(e, at + i * s)?);
				}
				Token::FixedArray(v)
			}
			T::Tuple(ts) => {
				let mut v = vec![];
				let mut p = at;
				for t in ts {
					v.push(self.fixed(t, p)?);
					p += static_size(t);
				}
				Token::Tuple(v)
			}
			_ => unreachable!(),
		})
	}
	pub fn list(&mut self, ts: &[T], base: usize) -> Option<Vec<Token>> {
		let mut v = vec![];
		let mut p = 0;
		for t in ts {
			v.push(self.value(t, base, p)?);
			p += if dynamic(t) { 32 } else { static_size(t) };
		}
		Some(v)
	}
}
pub fn lossy(b: &[u8]) -> String {
	String::from_utf8_lossy(b).into_owned()
}

/// name(type,type,...)
pub fn signature(name_: &str, ts: &[T]) -> String {
	cat(&[name_, &name(&T::Tuple(ts.to_vec()))])
}

/// The type a text names, None when it names none. Sizes may have leading zeros and any value below 2^64.
pub fn read(b: &[u8]) -> Option<T> {
	let mut i = 0;
	let t = read_at(b, &mut i)?;
	if i == b.len() {
		Some(t)
	} else {
		None
	}
}
fn digits(b: &[u8], i: &mut usize) -> Option<Option<usize>> {
	let st = *i;
	let mut n = 0usize;
	while *i < b.len() && b[*i] >= b'0' && b[*i] <= b'9' {
		n = n.checked_mul(10)?.checked_add((b[*i] - b'0') as usize)?;
		*i += 1;
	}
	Some(if *i == st { None } else { Some(n) })
}
fn word_at(b: &[u8], i: &mut usize, w: &[u8]) -> bool {
	if b.len() - *i < w.len() {
		return false;
	}
	for k in 0..w.len() {
		if b[*i + k] != w[k] {
			return false;
		}
	}
	*i += w.len();
	true
}
fn read_at(b: &[u8], i: &mut usize) -> Option<T> {
	if *i >= b.len() {
		return None;
	}
	let mut t = if b[*i] == b'(' {
		*i += 1;
		let mut v = vec![];
		if *i < b.len() && b[*i] == b')' {
			*i += 1;
		} else {
			loop {
				v.push(read_at(b, i)?);
				if *i >= b.len() {
					return None;
				}
				*i += 1;
				match b[*i - 1] {
					b',' => {}
					b')' => break,
					_ => return None,
				}
			}
		}
		T::Tuple(v)
	} else if word_at(b, i, b"address") {
		T::Address
	} else if word_at(b, i, b"bool") {
		T::Bool
	} else if word_at(b, i, b"string") {
		T::String
	} else if word_at(b, i, b"tuple") {
		T::Tuple(vec![])
	} else if word_at(b, i, b"bytes") {
		match digits(b, i)? {
			Some(n) => T::FixedBytes(n),
			None => T::Bytes,
		}
	} else if word_at(b, i, b"uint") {
		T::Uint(digits(b, i)?.unwrap_or(256))
	} else if word_at(b, i, b"int") {
		T::Int(digits(b, i)?.unwrap_or(256))
	} else {
		return None;
	};
	while *i < b.len() && b[*i] == b'[' {
		*i += 1;
		let n = digits(b, i)?;
		if *i >= b.len() || b[*i] != b']' {
			return None;
		}
		*i += 1;
		t = match n {
			Some(n) => T::FixedArray(Box::new(t), n),
			None => T::Array(Box::new(t)),
		};
	}
	Some(t)
}

/// Is an indexed parameter of this type stored as a hash?
pub fn hashed(t: &T) -> bool {
	matches!(t, T::String | T::Bytes | T::Array(_) | T::FixedArray(..) | T::Tuple(_))
}
/// What is hashed for an indexed value that is no value type.
pub fn in_place(t: &Token) -> Vec<u8> {
	match t {
		Token::String(s) => s.as_bytes().to_vec(),
		Token::Bytes(b) => b.clone(),
		Token::Array(v) | Token::FixedArray(v) | Token::Tuple(v) => {
			let mut out = vec![];
			for x in v {
				right_pad(&in_place(x), &mut out);
			}
			out
		}
		_ => {
			let mut out = vec![];
			enc1(t, &mut out);
			out
		}
	}
}
/// The topic an emitted log carries for an indexed value.
pub fn topic(v: &Token, t: &T) -> [u8; 32] {
	let e = in_place(v);
	if hashed(t) {
		crate::rt::keccak(&e)
	} else {
		let mut w = [0u8; 32];
		w.copy_from_slice(&e);
		w
	}
}

/// the value of a hexadecimal digit, 16 and above for other characters (no branches, so that one formula covers all)
pub fn nibble(c: u8) -> u8 {
	let d = c.wrapping_sub(b'0');
	let u = (c | 0x20).wrapping_sub(b'a');
	let isd = (d < 10) as u8;
	let isl = (u < 6) as u8;
	let m = (isd | isl) ^ 1;
	(isd.wrapping_neg() & d) | (isl.wrapping_neg() & u.wrapping_add(10)) | (m << 7)
}
/// the bytes a text of hexadecimal digits denotes, and whether it is one (the bytes are meaningless if not)
pub fn unhex(b: &[u8]) -> (Vec<u8>, bool) {
	let mut bad = (b.len() % 2) as u8;
	let mut v = vec![];
	for i in 0..b.len() / 2 {
		let (h, l) = (nibble(b[2 * i]), nibble(b[2 * i + 1]));
		bad |= (h | l) >> 4;
		v.push(h << 4 | (l & 15));
	}
	(v, bad == 0)
}
/// What strict reading of a text as an elementary type must give.
pub fn strict(t: &T, b: &[u8]) -> Option<Token> {
	match t {
		T::String => return Some(Token::String(unsafe { String::from_utf8_unchecked(b.to_vec()) })),
		T::Bool => {
			return if b == b"true" || b == b"1" {
				Some(Token::Bool(true))
			} else if b == b"false" || b == b"0" {
				Some(Token::Bool(false))
			} else {
				None
			}
		}
		_ => {}
	}
	let n = match t {
		T::Address => 20,
		T::FixedBytes(n) => *n,
		T::Bytes => b.len() / 2,
		_ => 32,
	};
	if b.len() % 2 != 0 || b.len() / 2 != n {
		return None;
	}
	let (v, ok) = unhex(b);
	if !ok {
		return None;
	}
	Some(match t {
		T::Address => {
			let mut a = [0; 20];
			a.copy_from_slice(&v);
			Token::Address(ethabi::ethereum_types::H160(a))
		}
		T::Bytes => Token::Bytes(v),
		T::FixedBytes(_) => Token::FixedBytes(v),
		T::Int(_) => Token::Int(uint_of(&v)),
		T::Uint(_) => Token::Uint(uint_of(&v)),
		_ => unreachable!(),
	})
}
/// hexadecimal digits of the bytes
pub fn hex(b: &[u8], upper: bool) -> Vec<u8> {
	let a = if upper { b'A' - 10 } else { b'a' - 10 };
	let mut v = vec![];
	for x in b {
		for d in [x >> 4, x & 15] {
			let l = (d > 9) as u8;
			v.push(d + (l.wrapping_neg() & a) + ((1 - l).wrapping_neg() & b'0'));
		}
	}
	v
}
/// The number decimal digits denote, big-endian, and whether the text is at least one digit and below 2^256.
pub fn decimal(b: &[u8]) -> Option<ethabi::Uint> {
	if b.is_empty() {
		return None;
	}
	let mut limbs = [0u64; 4]; // least significant first
	let mut over = 0u64;
	for c in b {
		let d = c.wrapping_sub(b'0');
		if d > 9 {
			return None;
		}
		let mut carry = 0;
		for l in limbs.iter_mut() {
			let x = *l as u128 * 10 + carry as u128;
			*l = x as u64;
			carry = (x >> 64) as u64;
		}
		over |= carry;
		carry = d as u64;
		for l in limbs.iter_mut() {
			let x = *l as u128 + carry as u128;
			*l = x as u64;
			carry = (x >> 64) as u64;
		}
		over |= carry;
	}
	if over != 0 {
		return None;
	}
	Some(ethabi::ethereum_types::U256(limbs))
}
/// What lenient reading of a text as an elementary type must give.
pub fn lenient(t: &T, b: &[u8]) -> Option<Token> {
	let signed = match t {
		T::Uint(_) => false,
		T::Int(_) => true,
		_ => return strict(t, b),
	};
	if b.len() == 64 {
		if let Some(x) = strict(t, b) {
			return Some(x);
		}
	}
	if !signed {
		return decimal(b).map(Token::Uint);
	}
	let minus = !b.is_empty() && b[0] == b'-';
	let mut x = decimal(if minus { &b[1..] } else { b })?;
	let top = x.0[3] >> 63 == 1;
	if minus {
		// two's complement; the magnitude is at most 2^255
		let rest = (x.0[3] << 1) | x.0[2] | x.0[1] | x.0[0];
		if top && rest != 0 {
			return None;
		}
		let mut carry = true;
		for l in x.0.iter_mut() {
			let (s, o) = (!*l).overflowing_add(carry as u64);
			*l = s;
			carry = o;
		}
	} else if top {
		return None;
	}
	Some(Token::Int(x))
}
/// The outermost items of a bracketed text, None when it is malformed.
pub fn items(b: &[u8], open: u8, close: u8) -> Option<Vec<&[u8]>> {
	let n = b.len();
	if n < 2 || b[0] != open || b[n - 1] != close {
		return None;
	}
	let b = &b[1..n - 1];
	let mut out = vec![];
	if b.is_empty() {
		return Some(out);
	}
	let mut stack: Vec<u8> = vec![];
	let mut quoted = false;
	let mut st = 0;
	let mut i = 0;
	while i < b.len() {
		let c = b[i];
		if c == b'"' {
			quoted = !quoted;
		} else if !quoted {
			if c == b'[' || c == b'(' {
				stack.push(c);
			} else if c == b']' || c == b')' {
				let o = stack.pop()?;
				if (o == b'[') != (c == b']') {
					return None;
				}
			} else if c == b',' && stack.is_empty() {
				out.push(&b[st..i]);
				st = i + 1;
			}
		}
		i += 1;
	}
	if quoted || !stack.is_empty() {
		return None;
	}
	out.push(&b[st..]);
	Some(out)
}
/// What reading a text as a type must give.
pub fn parse(t: &T, b: &[u8], len: bool) -> Option<Token> {
	match t {
		T::Array(e) => {
			let mut v = vec![];
			for i in items(b, b'[', b']')? {
				v.push(parse(e, i, len)?);
			}
			Some(Token::Array(v))
		}
		T::FixedArray(e, n) => {
			let mut v = vec![];
			for i in items(b, b'[', b']')? {
				v.push(parse(e, i, len)?);
			}
			if v.len() != *n {
				return None;
			}
			Some(Token::FixedArray(v))
		}
		T::Tuple(ts) => {
			let it = items(b, b'(', b')')?;
			if it.len() != ts.len() {
				return None;
			}
			let mut v = vec![];
			for (t, i) in ts.iter().zip(it) {
				v.push(parse(t, i, len)?);
			}
			Some(Token::Tuple(v))
		}
		_ => {
			if len {
				lenient(t, b)
			} else {
				strict(t, b)
			}
		}
	}
}
/// The text of a value in the form `parse` reads (strings must not contain separators).
pub fn render(t: &Token) -> Vec<u8> {
	match t {
		Token::Bool(b) => (if *b { "true" } else { "false" }).as_bytes().to_vec(),
		Token::String(s) => s.as_bytes().to_vec(),
		Token::Address(a) => hex(&a.0, false),
		Token::Bytes(b) | Token::FixedBytes(b) => hex(b, false),
		Token::Uint(x) | Token::Int(x) => hex(&word_of(x), false),
		Token::Array(v) | Token::FixedArray(v) | Token::Tuple(v) => {
			let tup = matches!(t, Token::Tuple(_));
			let mut o = vec![if tup { b'(' } else { b'[' }];
			for (i, x) in v.iter().enumerate() {
				if i > 0 {
					o.push(b',');
				}
				o.extend_from_slice(&render(x));
			}
			o.push(if tup { b')' } else { b']' });
			o
		}
	}
}
