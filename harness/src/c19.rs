use crate::c12::sig;
use crate::{gen, rt, spec};
use ethabi::ethereum_types::{H160, H256, U256};
use ethabi::{Constructor, Event, EventParam, FunctionOutputDecoder, ParamType as T, RawLog, RawTopicFilter, Token, Topic, TopicFilter};
use ethabi_contract::use_contract;

use_contract!(all, "../harness/abi/all.abi");
use_contract!(known, "../harness/abi/known.abi");
use_contract!(eip20, "/repo/res/eip20.abi");
use_contract!(ctor, "/repo/res/constructor.abi");
use_contract!(keywords, "/repo/res/test_rust_keywords.abi");
#[path = "c19w.rs"]
mod c19w;
// rebuild when these change
const _ABIS: [&str; 5] = [
	include_str!("../abi/all.abi"),
	include_str!("../abi/known.abi"),
	include_str!("/repo/res/eip20.abi"),
	include_str!("/repo/res/constructor.abi"),
	include_str!("/repo/res/test_rust_keywords.abi"),
];

/// Rust values the bindings take and give: symbolic ones, and their tokens
trait Val: Clone {
	fn sym() -> Self;
	fn tok(&self, t: &T) -> Token;
	fn byte(&self) -> u8 {
		unreachable!()
	}
	const LENS: &'static [usize] = &[0, 1, 2];
	/// a symbolic one of one size
	fn some() -> Self {
		Self::sym()
	}
}
impl Val for u8 {
	fn sym() -> u8 {
		rt::arr::<1>()[0]
	}
	fn tok(&self, _: &T) -> Token {
		unreachable!()
	}
	fn byte(&self) -> u8 {
		*self
	}
	const LENS: &'static [usize] = &[0, 5, 33];
}
impl Val for bool {
	fn sym() -> bool {
		rt::arr::<1>()[0] & 1 == 1
	}
	fn tok(&self, _: &T) -> Token {
		Token::Bool(*self)
	}
}
impl Val for H160 {
	fn sym() -> H160 {
		H160(rt::arr())
	}
	fn tok(&self, _: &T) -> Token {
		Token::Address(*self)
	}
}
impl Val for H256 {
	fn sym() -> H256 {
		H256(rt::arr())
	}
	fn tok(&self, _: &T) -> Token {
		Token::FixedBytes(self.0.to_vec())
	}
}
impl Val for U256 {
	fn sym() -> U256 {
		spec::uint_of(&rt::arr::<32>())
	}
	fn tok(&self, t: &T) -> Token {
		match t {
			T::Int(_) => Token::Int(*self),
			_ => Token::Uint(*self),
		}
	}
}
impl Val for String {
	fn sym() -> String {
		gen::text(rt::pick(&[0, 3, 32]))
	}
	fn some() -> String {
		gen::text(3)
	}
	fn tok(&self, _: &T) -> Token {
		Token::String(self.clone())
	}
}
fn elem(t: &T) -> T {
	match t {
		T::Array(e) | T::FixedArray(e, _) => (**e).clone(),
		_ => T::Bytes,
	}
}
impl<E: Val> Val for Vec<E> {
	fn sym() -> Vec<E> {
		let n = rt::pick(E::LENS);
		(0..n).map(|_| E::sym()).collect()
	}
	fn some() -> Vec<E> {
		(0..E::LENS[1] + 1).map(|_| E::some()).collect()
	}
	fn tok(&self, t: &T) -> Token {
		match t {
			T::Bytes => Token::Bytes(self.iter().map(|e| e.byte()).collect()),
			_ => Token::Array(self.iter().map(|e| e.tok(&elem(t))).collect()),
		}
	}
}
impl<E: Val, const N: usize> Val for [E; N] {
	fn sym() -> [E; N] {
		std::array::from_fn(|_| E::sym())
	}
	fn some() -> [E; N] {
		std::array::from_fn(|_| E::some())
	}
	fn tok(&self, t: &T) -> Token {
		match t {
			T::FixedBytes(_) => Token::FixedBytes(self.iter().map(|e| e.byte()).collect()),
			_ => Token::FixedArray(self.iter().map(|e| e.tok(&elem(t))).collect()),
		}
	}
}
fn types(ts: &[&str]) -> Vec<T> {
	ts.iter().map(|t| spec::ty(t)).collect()
}
/// the bytes of a call
fn same_call(name: &str, ts: &[T], v: &[Token], got: &[u8]) -> bool {
	match gen::function(name, ts, &[]).encode_input(v) {
		Ok(want) => rt::same(got, &want),
		Err(_) => false,
	}
}
/// bytes to decode: unconstrained ones of every length, or an encoding with one word unconstrained
fn raw(ts: &[T]) -> Vec<u8> {
	rt::ascii(true);
	match rt::choose(3) {
		0 => {
			let size: usize = if ts.iter().any(spec::dynamic) { 96 } else { ts.iter().map(spec::static_size).sum() };
			rt::bytes(rt::pick(&[0, 1, 31, 32, size.saturating_sub(32), size.saturating_sub(1), size, size + 32 - 32 * (size == 96) as usize]))
		}
		1 => gen::corrupt(ts, &[&[0], &[33, 1]], &[&[1, 2], &[2, 0]], &[0, 1, 32], false),
		_ => spec::enc(&gen::shape(&[&[0], &[33, 1, 32]], &[&[0], &[2, 1]]).values(ts)),
	}
}
/// the same values as the library decodes, or an error where it gives an error
fn same_out(ts: &[T], data: &[u8], got: Result<Vec<Token>, ()>) -> bool {
	match (gen::function("f", &[], ts).decode_output(data), got) {
		(Ok(w), Ok(g)) => {
			rt::reach(1);
			spec::toks_eq(&w, &g)
		}
		(Err(_), Err(_)) => {
			rt::reach(0);
			true
		}
		_ => false,
	}
}
/// a function taking and giving one value of the type
macro_rules! one {
	($m:ident, $name:literal, $t:literal, $r:ty, $dec:expr) => {{
		let ts = types(&[$t]);
		if $dec {
			let data = raw(&ts);
			let got = all::functions::$m::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|x: $r| vec![x.tok(&ts[0])]).map_err(|_| ())), "decoded output");
		} else {
			let x: $r = Val::sym();
			let v = [x.tok(&ts[0])];
			check!(same_call($name, &ts, &v, &all::functions::$m::encode_input(x.clone())), "bytes of a call");
			let (b, d) = all::functions::$m::call(x);
			check!(same_call($name, &ts, &v, &b), "bytes of a call");
			let e = spec::enc(&v);
			check!(same_out(&ts, &e, d.decode(&e).map(|x: $r| vec![x.tok(&ts[0])]).map_err(|_| ())), "decoded by the decoder of the call");
		}
	}};
}
fn elementary(dec: bool) {
	match rt::choose(11) {
		0 => one!(one_address, "oneAddress", "address", H160, dec),
		1 => one!(one_bool, "oneBool", "bool", bool, dec),
		2 => one!(one_uint8, "oneUint8", "uint8", U256, dec),
		3 => one!(one_int, "oneInt", "int256", U256, dec),
		4 => one!(one_int8, "oneInt8", "int8", U256, dec),
		5 => one!(one_uint, "oneUint", "uint256", U256, dec),
		6 => one!(one_bytes, "oneBytes", "bytes", Vec<u8>, dec),
		7 => one!(one_string, "oneString", "string", String, dec),
		8 => one!(one_hash, "oneHash", "bytes32", H256, dec),
		9 => one!(one_byte, "oneByte", "bytes1", [u8; 1], dec),
		_ => one!(one_five, "oneFive", "bytes5", [u8; 5], dec),
	}
}
fn arrays(dec: bool) {
	match rt::choose(14) {
		0 => one!(uints, "uints", "uint256[]", Vec<U256>, dec),
		1 => one!(strings, "strings", "string[]", Vec<String>, dec),
		2 => one!(fives, "fives", "bytes5[]", Vec<[u8; 5]>, dec),
		3 => one!(hashes, "hashes", "bytes32[]", Vec<H256>, dec),
		4 => one!(bools, "bools", "bool[]", Vec<bool>, dec),
		5 => one!(pair_address, "pairAddress", "address[2]", [H160; 2], dec),
		6 => one!(pair_string, "pairString", "string[2]", [String; 2], dec),
		7 => one!(pair_hash, "pairHash", "bytes32[2]", [H256; 2], dec),
		8 => one!(pair_int, "pairInt", "int16[2]", [U256; 2], dec),
		9 => one!(nested, "nested", "uint256[][]", Vec<Vec<U256>>, dec),
		10 => one!(pairs_in_array, "pairsInArray", "bytes[2][]", Vec<[Vec<u8>; 2]>, dec),
		11 => one!(array_in_pair, "arrayInPair", "uint8[][2]", [Vec<U256>; 2], dec),
		12 => one!(pair_triple, "pairTriple", "bool[2][3]", [[bool; 2]; 3], dec),
		_ => one!(nested_fixed, "nestedFixed", "uint256[2][][2]", [Vec<[U256; 2]>; 2], dec),
	}
}
fn event(name: &str, anonymous: bool, ps: &[(&str, &str, bool)]) -> Event {
	Event { name: name.into(), anonymous, inputs: ps.iter().map(|(n, t, i)| EventParam { name: (*n).into(), kind: spec::ty(t), indexed: *i }).collect() }
}
fn same_event(a: &Event, b: &Event) -> bool {
	a.name == b.name && a.anonymous == b.anonymous && a.inputs.len() == b.inputs.len() && a.inputs.iter().zip(&b.inputs).all(|(p, q)| p.name == q.name && p.kind == q.kind && p.indexed == q.indexed)
}
/// the types the fields of a log have
fn fields(e: &Event) -> Vec<T> {
	e.inputs.iter().map(|p| if p.indexed && spec::hashed(&p.kind) { T::FixedBytes(32) } else { p.kind.clone() }).collect()
}
/// a log: any topics, any data, some of them those the event emits
fn log(e: &Event) -> RawLog {
	let ix = e.inputs.iter().filter(|p| p.indexed).count();
	let mut topics = vec![];
	let foreign = rt::choose(4);
	if !e.anonymous && foreign != 1 {
		topics.push(if foreign == 2 { H256(rt::arr()) } else { sig(e) });
	}
	let n = if foreign == 3 { rt::choose(5) } else { ix };
	for _ in 0..n {
		topics.push(H256(rt::arr()));
	}
	let ts: Vec<T> = e.inputs.iter().filter(|p| !p.indexed).map(|p| p.kind.clone()).collect();
	let data = if foreign == 0 { raw(&ts) } else { spec::enc(&gen::shape(&[&[5]], &[&[1]]).values(&ts)) };
	RawLog { topics, data }
}
fn same_log(e: &Event, l: RawLog, got: Result<Vec<Token>, ()>) -> bool {
	match (e.parse_log(l), got) {
		(Ok(w), Ok(g)) => {
			rt::reach(1);
			let w: Vec<Token> = w.params.into_iter().map(|p| p.value).collect();
			spec::toks_eq(&w, &g)
		}
		(Err(_), Err(_)) => {
			rt::reach(0);
			true
		}
		_ => false,
	}
}
fn topic_eq(a: &Topic<H256>, b: &Topic<H256>) -> bool {
	match (a, b) {
		(Topic::Any, Topic::Any) => true,
		(Topic::This(x), Topic::This(y)) => rt::same(&x.0, &y.0),
		(Topic::OneOf(x), Topic::OneOf(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| rt::same(&x.0, &y.0)),
		_ => false,
	}
}
fn filter_eq(a: &TopicFilter, b: &TopicFilter) -> bool {
	topic_eq(&a.topic0, &b.topic0) && topic_eq(&a.topic1, &b.topic1) && topic_eq(&a.topic2, &b.topic2) && topic_eq(&a.topic3, &b.topic3)
}
/// any, one, none of or several of
fn topic<V: Val>() -> Topic<V> {
	match rt::choose(4) {
		0 => Topic::Any,
		1 => Topic::This(V::sym()),
		2 => Topic::OneOf(vec![]),
		_ => Topic::OneOf(vec![V::sym(), V::sym()]),
	}
}
fn toks<V: Val>(t: &Topic<V>, k: &str) -> Topic<Token> {
	let k = spec::ty(k);
	match t {
		Topic::Any => Topic::Any,
		Topic::This(x) => Topic::This(x.tok(&k)),
		Topic::OneOf(v) => Topic::OneOf(v.iter().map(|x| x.tok(&k)).collect()),
	}
}
fn same_filter(e: &Event, raw: RawTopicFilter, got: &TopicFilter) -> bool {
	match e.filter(raw) {
		Ok(w) => filter_eq(&w, got),
		Err(_) => false,
	}
}
/// declaration and logs of an event
macro_rules! ev {
	($m:ident, $e:expr, $($f:ident),*) => {{
		let e = $e;
		check!(same_event(&all::events::$m::event(), &e), "declaration of the event");
		let l = log(&e);
		let got = all::events::$m::parse_log(l.clone());
		#[allow(unused)]
		let fs = fields(&e);
		#[allow(unused)]
		let got = got.map(|l| { let mut i = 0; let mut v: Vec<Token> = vec![]; $( v.push(l.$f.tok(&fs[i])); i += 1; )* v }).map_err(|_| ());
		check!(same_log(&e, l, got), "parsed log");
	}};
}
fn plain() -> Event {
	event("Plain", false, &[("from", "address", true), ("to", "address", true), ("value", "uint256", false)])
}
fn unnamed() -> Event {
	event("Unnamed", false, &[("", "uint256", true), ("", "uint256", false), ("", "bool", true), ("", "bool", false)])
}
fn anon() -> Event {
	event("Anon", true, &[("a", "uint256", true), ("b", "string", false), ("c", "bytes5", true)])
}
fn hashed() -> Event {
	event("Hashed", false, &[("s", "string", true), ("b", "bytes", true), ("c", "uint256[]", true), ("d", "string", false)])
}
fn fixed_hashed() -> Event {
	event("FixedHashed", false, &[("a", "uint256[2]", true), ("h", "bytes32", true), ("b", "string[2]", true)])
}
fn order() -> Event {
	event("Order", false, &[("a", "uint256", false), ("b", "address", true), ("c", "string", false), ("d", "int256", true), ("e", "bytes", false)])
}
fn swapped() -> Event {
	event("Swapped", false, &[("late", "string", false), ("early", "uint8", true), ("second", "int8", true), ("last", "uint16", false)])
}

harness! {
/// bindings of functions with one argument and result of each of 11 elementary types: calls with every argument (texts of 0, 3, 32 characters, byte strings of 0, 5, 33 bytes), and decoding the result by the returned decoder
fn c19_elementary_in() {
	elementary(false);
}
/// bindings of functions with one result of each of 11 elementary types: decoding unconstrained bytes of up to 96 bytes, valid encodings, and encodings with one word unconstrained and up to 32 bytes cut off
fn c19_elementary_out() {
	elementary(true);
}
/// bindings of functions with one argument of each of 14 array types (dynamic, fixed, nested): calls with every argument of 0..=2 elements per dynamic array
fn c19_arrays_in() {
	arrays(false);
}
/// bindings of functions with one result of each of 14 array types: decoding unconstrained bytes, valid encodings, and encodings with one word unconstrained
fn c19_arrays_out() {
	arrays(true);
}
/// bindings of functions with several, no or unnamed arguments and results, names of every case style, arguments given through other types that convert
fn c19_several() {
	let (a, s, u, d): (H160, String, Vec<U256>, [u8; 5]) = (Val::sym(), Val::sym(), Val::sym(), Val::sym());
	let (x, y, z): (U256, U256, U256) = (Val::sym(), Val::sym(), Val::sym());
	let (p, q): (bool, bool) = (Val::sym(), Val::sym());
	match rt::choose(9) {
		0 => {
			let ts = types(&["address", "string", "uint256[]", "bytes5"]);
			let v = [a.tok(&ts[0]), s.tok(&ts[1]), u.tok(&ts[2]), d.tok(&ts[3])];
			check!(same_call("mixed", &ts, &v, &all::functions::mixed::encode_input(a, s.as_str(), u.clone(), d)), "bytes of a call");
			check!(same_call("mixed", &ts, &v, &all::functions::mixed::call(a.0, s, u, d).0), "bytes of a call");
		}
		1 => {
			let ts = types(&["uint256", "uint256", "int8"]);
			let v = [x.tok(&ts[0]), y.tok(&ts[1]), z.tok(&ts[2])];
			check!(same_call("three", &ts, &v, &all::functions::three::encode_input(x, y, z)), "bytes of a call");
			let (b, dec) = all::functions::three::call(x, y, z);
			check!(same_call("three", &ts, &v, &b), "bytes of a call");
			let e = spec::enc(&v);
			check!(same_out(&ts, &e, dec.decode(&e).map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1]), r.2.tok(&ts[2])]).map_err(|_| ())), "decoded by the decoder of the call");
		}
		2 => {
			let ts = types(&["bool", "bool"]);
			check!(same_call("snake_case_name", &ts, &[Token::Bool(p), Token::Bool(q)], &all::functions::snake_case_name::encode_input(p, q)), "bytes of a call");
		}
		3 => {
			let b: Vec<u8> = Val::sym();
			check!(same_call("UPPERName", &types(&["bytes"]), &[Token::Bytes(b.clone())], &all::functions::upper_name::encode_input(b)), "bytes of a call");
		}
		4 => {
			let ts = types(&["uint256", "uint256"]);
			check!(same_call("inOnly", &ts, &[Token::Uint(x), Token::Uint(y)], &all::functions::in_only::encode_input(x, y)), "bytes of a call");
			check!(all::functions::in_only::decode_output(&rt::bytes(rt::choose(3))).is_ok(), "nothing to decode");
		}
		5 => {
			check!(same_call("noArgs", &[], &[], &all::functions::no_args::encode_input()), "bytes of a call");
			check!(same_call("noArgs", &[], &[], &all::functions::no_args::call().0), "bytes of a call");
			check!(same_call("outOnly", &[], &[], &all::functions::out_only::call().0), "bytes of a call");
		}
		6 => {
			check!(same_call("transfer", &types(&["address", "uint256"]), &[Token::Address(a), Token::Uint(x)], &eip20::functions::transfer::encode_input(a, x)), "bytes of a call");
			check!(same_call("balanceOf", &types(&["address"]), &[Token::Address(a)], &eip20::functions::balance_of::encode_input(a)), "bytes of a call");
		}
		7 => {
			check!(same_call("foo", &types(&["bool"]), &[Token::Bool(p)], &keywords::functions::foo::encode_input(p)), "bytes of a call");
			let n = rt::arr::<1>()[0];
			check!(same_call("oneUint", &types(&["uint256"]), &[Token::Uint(n.into())], &all::functions::one_uint::encode_input(n)), "bytes of a call");
			check!(same_call("uints", &types(&["uint256[]"]), &[Token::Array(vec![Token::Uint(n.into())])], &all::functions::uints::encode_input(std::iter::once(n))), "bytes of a call");
		}
		_ => {
			let (h, g): (H256, H256) = (Val::sym(), Val::sym());
			check!(same_call("pairHash", &types(&["bytes32[2]"]), &[Token::FixedArray(vec![h.tok(&T::Bool), g.tok(&T::Bool)])], &all::functions::pair_hash::encode_input([h.0, g.0])), "bytes of a call");
		}
	}
}
/// bindings of functions with several results: decoding unconstrained bytes, valid encodings, and encodings with one word unconstrained
fn c19_several_out() {
	match rt::choose(5) {
		0 => {
			let ts = types(&["bool", "bytes", "address[2]"]);
			let data = raw(&ts);
			let got = all::functions::mixed::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1]), r.2.tok(&ts[2])]).map_err(|_| ())), "decoded output");
		}
		1 => {
			let ts = types(&["uint256", "uint256", "int8"]);
			let data = raw(&ts);
			let got = all::functions::three::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1]), r.2.tok(&ts[2])]).map_err(|_| ())), "decoded output");
		}
		2 => {
			let ts = types(&["bool", "bool"]);
			let data = raw(&ts);
			let got = all::functions::snake_case_name::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1])]).map_err(|_| ())), "decoded output");
		}
		3 => {
			let ts = types(&["string", "bytes"]);
			let data = raw(&ts);
			let got = all::functions::upper_name::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1])]).map_err(|_| ())), "decoded output");
		}
		_ => {
			let ts = types(&["uint256", "string[]", "uint256", "int256"]);
			let data = raw(&ts);
			let got = all::functions::out_only::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1]), r.2.tok(&ts[2]), r.3.tok(&ts[3])]).map_err(|_| ())), "decoded output");
		}
	}
}
/// generated constructors: every code of 0, 1, 40 bytes and every argument list of the bounds above
fn c19_constructor() {
	let code = rt::bytes(rt::pick(&[0, 1, 40]));
	let (got, ts, v) = if rt::choose(2) == 0 {
		let (x, s, c, o): (U256, String, [[u8; 5]; 2], Vec<H160>) = (Val::sym(), Val::sym(), Val::sym(), Val::sym());
		let ts = types(&["uint256", "string", "bytes5[2]", "address[]"]);
		let v = vec![x.tok(&ts[0]), s.tok(&ts[1]), c.tok(&ts[2]), o.tok(&ts[3])];
		(all::constructor(code.clone(), x, s, c, o), ts, v)
	} else {
		let a: H160 = Val::sym();
		(ctor::constructor(code.clone(), a), types(&["address"]), vec![Token::Address(a)])
	};
	let c = Constructor { inputs: gen::params(&ts) };
	match c.encode_input(code, &v) {
		Ok(w) => check!(rt::same(&got, &w), "bytes of a constructor call"),
		Err(_) => check!(false, "the library rejects the arguments"),
	}
}
/// declarations and logs of 6 generated events (named, unnamed, anonymous, indexed hashed values, value types): own logs with unconstrained topics and unconstrained or corrupted data, a missing or foreign signature, 0..=4 topics
fn c19_logs() {
	match rt::choose(6) {
		0 => ev!(plain, plain(), from, to, value),
		1 => ev!(unnamed, unnamed(), topic0, param1, topic2, param3),
		2 => ev!(anon, anon(), a, b, c),
		3 => ev!(hashed, hashed(), s, b, c, d),
		4 => ev!(fixed_hashed, fixed_hashed(), a, h, b),
		_ => ev!(empty, event("Empty", false, &[]), ),
	}
}
/// the same for 4 more events: indexed and other parameters interleaved, four topics, nested arrays in the data
fn c19_logs_more() {
	match rt::choose(4) {
		0 => ev!(order, order(), a, b, c, d, e),
		1 => ev!(swapped, swapped(), late, early, second, last),
		2 => ev!(four_topics, event("FourTopics", true, &[("a", "uint256", true), ("b", "uint256", true), ("c", "uint256", true), ("d", "uint256", true), ("e", "uint256", false)]), a, b, c, d, e),
		_ => ev!(data, event("Data", false, &[("a", "uint256[]", false), ("b", "bytes5", false), ("c", "string[2]", false), ("d", "bytes32[]", false), ("e", "bool[2][3]", false), ("f", "bytes", false)]), a, b, c, d, e, f),
	}
}
/// filters of 7 generated events: every position unrestricted, one value, none or two alternatives, values symbolic; and the unrestricted filters
fn c19_filters() {
	match rt::choose(8) {
		0 => {
			let (x, y) = (topic::<H160>(), topic::<H160>());
			let raw = RawTopicFilter { topic0: toks(&x, "address"), topic1: toks(&y, "address"), ..Default::default() };
			check!(same_filter(&plain(), raw, &all::events::plain::filter(x, y)), "filter");
		}
		1 => {
			let (x, y) = (topic::<U256>(), topic::<bool>());
			let raw = RawTopicFilter { topic0: toks(&x, "uint256"), topic1: toks(&y, "bool"), ..Default::default() };
			check!(same_filter(&unnamed(), raw, &all::events::unnamed::filter(x, y)), "filter");
		}
		2 => {
			let (x, y) = (topic::<U256>(), topic::<[u8; 5]>());
			let raw = RawTopicFilter { topic0: toks(&x, "uint256"), topic1: toks(&y, "bytes5"), ..Default::default() };
			check!(same_filter(&anon(), raw, &all::events::anon::filter(x, y)), "filter");
		}
		3 => {
			let (x, y, z) = match rt::choose(3) {
				0 => (topic::<String>(), Topic::Any, Topic::Any),
				1 => (Topic::Any, topic::<Vec<u8>>(), Topic::Any),
				_ => (Topic::Any, Topic::Any, topic::<Vec<U256>>()),
			};
			let raw = RawTopicFilter { topic0: toks(&x, "string"), topic1: toks(&y, "bytes"), topic2: toks(&z, "uint256[]") };
			check!(same_filter(&hashed(), raw, &all::events::hashed::filter(x, y, z)), "filter");
		}
		4 => {
			let (x, y, z) = match rt::choose(3) {
				0 => (topic::<[U256; 2]>(), Topic::Any, Topic::Any),
				1 => (Topic::Any, topic::<H256>(), Topic::Any),
				_ => (Topic::Any, Topic::Any, topic::<[String; 2]>()),
			};
			let raw = RawTopicFilter { topic0: toks(&x, "uint256[2]"), topic1: toks(&y, "bytes32"), topic2: toks(&z, "string[2]") };
			check!(same_filter(&fixed_hashed(), raw, &all::events::fixed_hashed::filter(x, y, z)), "filter");
		}
		5 => {
			let (x, y) = (topic::<H160>(), topic::<U256>());
			let raw = RawTopicFilter { topic0: toks(&x, "address"), topic1: toks(&y, "int256"), ..Default::default() };
			check!(same_filter(&order(), raw, &all::events::order::filter(x, y)), "filter");
		}
		6 => {
			let (x, y) = (topic::<U256>(), topic::<U256>());
			let raw = RawTopicFilter { topic0: toks(&x, "uint8"), topic1: toks(&y, "int8"), ..Default::default() };
			check!(same_filter(&swapped(), raw, &all::events::swapped::filter(x, y)), "filter");
		}
		_ => {
			let (e, f) = match rt::choose(5) {
				0 => (plain(), all::events::plain::wildcard_filter()),
				1 => (anon(), all::events::anon::wildcard_filter()),
				2 => (hashed(), all::events::hashed::wildcard_filter()),
				3 => (event("Empty", false, &[]), all::events::empty::wildcard_filter()),
				_ => (unnamed(), all::events::unnamed::wildcard_filter()),
			};
			check!(same_filter(&e, RawTopicFilter::default(), &f), "unrestricted filter");
			// values, lists and options convert to topics
			let (x, y): (H160, H160) = (Val::sym(), Val::sym());
			let raw = RawTopicFilter { topic0: Topic::This(Token::Address(x)), topic1: Topic::OneOf(vec![Token::Address(y)]), ..Default::default() };
			check!(same_filter(&plain(), raw, &all::events::plain::filter(x, vec![y])), "filter");
		}
	}
}
/// an event whose name is not in camel case has the signature of its declared name
fn c19_known_event_name() {
	let e = event("transfer_made", false, &[("a", "uint256", true)]);
	check!(known::events::transfer_made::event().signature() == e.signature(), "signature of the event");
}
// generated by tools/gen_bindings.py
/// generated bindings for fixed bytes of every size 1 to 33, 40 and 64: calls with symbolic arguments
fn c19_bytes_in() {
	c19w::bytes_in();
}
/// generated bindings for fixed bytes of every size 1 to 33, 40 and 64: decoding symbolic results, whole, cut by a byte or empty, and unconstrained words
fn c19_bytes_out() {
	c19w::bytes_out();
}
/// generated bindings for fixed bytes of every size 1 to 33, 40 and 64: logs of an event with an indexed and a data parameter: own, cut, with a missing, extra or foreign topic
fn c19_bytes_log() {
	c19w::bytes_log();
}
/// generated bindings for fixed bytes of every size 1 to 33, 40 and 64: filters: unrestricted, one value, two alternatives at every position
fn c19_bytes_filter() {
	c19w::bytes_filter();
}
/// generated bindings for unsigned numbers of every width 8 to 256: calls with symbolic arguments
fn c19_uints_in() {
	c19w::uints_in();
}
/// generated bindings for unsigned numbers of every width 8 to 256: decoding symbolic results, whole, cut by a byte or empty, and unconstrained words
fn c19_uints_out() {
	c19w::uints_out();
}
/// generated bindings for unsigned numbers of every width 8 to 256: logs of an event with an indexed and a data parameter: own, cut, with a missing, extra or foreign topic
fn c19_uints_log() {
	c19w::uints_log();
}
/// generated bindings for unsigned numbers of every width 8 to 256: filters: unrestricted, one value, two alternatives at every position
fn c19_uints_filter() {
	c19w::uints_filter();
}
/// generated bindings for signed numbers of every width 8 to 256: calls with symbolic arguments
fn c19_ints_in() {
	c19w::ints_in();
}
/// generated bindings for signed numbers of every width 8 to 256: decoding symbolic results, whole, cut by a byte or empty, and unconstrained words
fn c19_ints_out() {
	c19w::ints_out();
}
/// generated bindings for signed numbers of every width 8 to 256: logs of an event with an indexed and a data parameter: own, cut, with a missing, extra or foreign topic
fn c19_ints_log() {
	c19w::ints_log();
}
/// generated bindings for signed numbers of every width 8 to 256: filters: unrestricted, one value, two alternatives at every position
fn c19_ints_filter() {
	c19w::ints_filter();
}
/// generated bindings for fixed arrays of 27 types, of 1 to 33 elements: calls with symbolic arguments
fn c19_fixed_in() {
	c19w::fixed_in();
}
/// generated bindings for fixed arrays of 27 types, of 1 to 33 elements: decoding symbolic results, whole, cut by a byte or empty, and unconstrained words
fn c19_fixed_out() {
	c19w::fixed_out();
}
/// generated bindings for fixed arrays of 27 types, of 1 to 33 elements: logs of an event with an indexed and a data parameter: own, cut, with a missing, extra or foreign topic
fn c19_fixed_log() {
	c19w::fixed_log();
}
/// generated bindings for fixed arrays of 27 types, of 1 to 33 elements: filters: unrestricted, one value, two alternatives at every position
fn c19_fixed_filter() {
	c19w::fixed_filter();
}
/// generated bindings for arrays of 18 types, nested up to 4 deep: calls with symbolic arguments
fn c19_deep_in() {
	c19w::deep_in();
}
/// generated bindings for arrays of 18 types, nested up to 4 deep: decoding symbolic results, whole, cut by a byte or empty, and unconstrained words
fn c19_deep_out() {
	c19w::deep_out();
}
/// generated bindings for arrays of 18 types, nested up to 4 deep: logs of an event with an indexed and a data parameter: own, cut, with a missing, extra or foreign topic
fn c19_deep_log() {
	c19w::deep_log();
}
/// generated bindings for arrays of 18 types, nested up to 4 deep: filters: unrestricted, one value, two alternatives at every position
fn c19_deep_filter() {
	c19w::deep_filter();
}
/// generated bindings for 0 to 12 parameters of 12 types (events: 1 to 7, several patterns of indexed ones, anonymous or not): calls with symbolic arguments
fn c19_many_in() {
	c19w::many_in();
}
/// generated bindings for 0 to 12 parameters of 12 types (events: 1 to 7, several patterns of indexed ones, anonymous or not): decoding symbolic results, whole, cut by a byte or empty, and unconstrained words
fn c19_many_out() {
	c19w::many_out();
}
/// generated bindings for 0 to 12 parameters of 12 types (events: 1 to 7, several patterns of indexed ones, anonymous or not): logs of an event with an indexed and a data parameter: own, cut, with a missing, extra or foreign topic
fn c19_many_log() {
	c19w::many_log();
}
/// generated bindings for 0 to 12 parameters of 12 types (events: 1 to 7, several patterns of indexed ones, anonymous or not): filters: unrestricted, one value, two alternatives at every position
fn c19_many_filter() {
	c19w::many_filter();
}
/// generated bindings for functions with names of 9 styles (capitals, digits, underscores, long): calls with symbolic arguments
fn c19_names_in() {
	c19w::names_in();
}
/// generated bindings for functions with names of 9 styles (capitals, digits, underscores, long): decoding symbolic results, whole, cut by a byte or empty, and unconstrained words
fn c19_names_out() {
	c19w::names_out();
}
/// a generated constructor with 9 parameters, all arguments symbolic
fn c19_many_ctor() {
	c19w::many_ctor();
}
// end
}
