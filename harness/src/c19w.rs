// written by tools/gen_bindings.py
use super::*;
use_contract!(wide, "../harness/abi/wide.abi");
const _ABI: &str = include_str!("../abi/wide.abi");

/// results to decode: an encoding of symbolic values, whole or cut by a byte, nothing, or unconstrained words
fn some(ts: &[T]) -> Vec<u8> {
	rt::ascii(true);
	let v: Vec<Token> = ts.iter().map(|t| gen::sized(t, 3, 2)).collect();
	let mut e = spec::enc(&v);
	match rt::choose(4) {
		0 => e,
		1 => {
			e.pop();
			e
		}
		2 => vec![],
		_ => {
			let i = rt::choose(e.len() / 32 + 1).min(3);
			if 32 * i + 32 <= e.len() {
				e[32 * i..32 * i + 28].copy_from_slice(&rt::arr::<28>());
			}
			e
		}
	}
}
macro_rules! one {
	($m:ident, $name:literal, $t:literal, $r:ty, $dec:expr) => {{
		let ts = types(&[$t]);
		if $dec {
			let data = some(&ts);
			let got = wide::functions::$m::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|x: $r| vec![x.tok(&ts[0])]).map_err(|_| ())), "decoded output");
		} else {
			let x: $r = Val::some();
			let v = [x.tok(&ts[0])];
			check!(same_call($name, &ts, &v, &wide::functions::$m::encode_input(x.clone())), "bytes of a call");
			let (b, d) = wide::functions::$m::call(x);
			check!(same_call($name, &ts, &v, &b), "bytes of a call");
			let e = spec::enc(&v);
			check!(same_out(&ts, &e, d.decode(&e).map(|x: $r| vec![x.tok(&ts[0])]).map_err(|_| ())), "decoded by the decoder of the call");
		}
	}};
}
/// a log of the event, or one with a topic missing, extra or foreign, or with its data cut
fn own(e: &Event) -> RawLog {
	let mut topics = vec![];
	if !e.anonymous {
		topics.push(sig(e));
	}
	for p in &e.inputs {
		if p.indexed {
			topics.push(H256(rt::arr()));
		}
	}
	let mut data = vec![];
	for p in e.inputs.iter().filter(|p| !p.indexed) {
		data.push(gen::sized(&p.kind, 3, 2));
	}
	let mut data = spec::enc(&data);
	rt::ascii(true);
	match rt::choose(5) {
		0 => {}
		1 => {
			topics.pop();
		}
		2 => topics.push(H256(rt::arr())),
		3 => {
			if let Some(t) = topics.first_mut() {
				*t = H256(rt::arr());
			}
		}
		_ => {
			data.pop();
		}
	}
	RawLog { topics, data }
}
macro_rules! ev {
	($m:ident, $e:expr, $($f:ident),*) => {{
		let e = $e;
		check!(same_event(&wide::events::$m::event(), &e), "declaration of the event");
		let l = own(&e);
		let got = wide::events::$m::parse_log(l.clone());
		#[allow(unused)]
		let fs = fields(&e);
		#[allow(unused)]
		let got = got.map(|l| { let mut i = 0; let mut v: Vec<Token> = vec![]; $( v.push(l.$f.tok(&fs[i])); i += 1; )* v }).map_err(|_| ());
		check!(same_log(&e, l, got), "parsed log");
	}};
}
fn any<V: Val>() -> Topic<V> {
	match rt::choose(3) {
		0 => Topic::Any,
		1 => Topic::This(V::some()),
		_ => Topic::OneOf(vec![V::some(), V::some()]),
	}
}
fn as_toks<V: Val>(t: &Topic<V>, k: &T) -> Topic<Token> {
	match t {
		Topic::Any => Topic::Any,
		Topic::This(x) => Topic::This(x.tok(k)),
		Topic::OneOf(v) => Topic::OneOf(v.iter().map(|x| x.tok(k)).collect()),
	}
}
macro_rules! fl {
	($m:ident, $e:expr, $($r:ty),*) => {{
		let e = $e;
		let ks: Vec<T> = e.inputs.iter().filter(|p| p.indexed).map(|p| p.kind.clone()).collect();
		let mut raw: Vec<Topic<Token>> = vec![];
		let got = fl!(@ $m ks raw () $($r),*);
		while raw.len() < 3 {
			raw.push(Topic::Any);
		}
		let topic2 = raw.pop().unwrap();
		let topic1 = raw.pop().unwrap();
		let topic0 = raw.pop().unwrap();
		check!(same_filter(&e, RawTopicFilter { topic0, topic1, topic2 }, &got), "filter");
		check!(same_filter(&e, RawTopicFilter::default(), &wide::events::$m::wildcard_filter()), "unrestricted filter");
	}};
	(@ $m:ident $ks:ident $raw:ident ($($v:ident)*)) => { wide::events::$m::filter($($v),*) };
	(@ $m:ident $ks:ident $raw:ident () $r:ty) => {{
		let a = any::<$r>();
		$raw.push(as_toks(&a, &$ks[0]));
		wide::events::$m::filter(a)
	}};
	(@ $m:ident $ks:ident $raw:ident () $r:ty, $s:ty) => {{
		let (a, b) = (any::<$r>(), any::<$s>());
		$raw.push(as_toks(&a, &$ks[0]));
		$raw.push(as_toks(&b, &$ks[1]));
		wide::events::$m::filter(a, b)
	}};
	(@ $m:ident $ks:ident $raw:ident () $r:ty, $s:ty, $t:ty) => {{
		let (a, b, c) = (any::<$r>(), any::<$s>(), any::<$t>());
		$raw.push(as_toks(&a, &$ks[0]));
		$raw.push(as_toks(&b, &$ks[1]));
		$raw.push(as_toks(&c, &$ks[2]));
		wide::events::$m::filter(a, b, c)
	}};
}

/// generated bindings for fixed bytes of every size 1 to 33, 40 and 64: calls with symbolic arguments
pub fn bytes_in() {
	match rt::choose(35) {
		0 => one!(fbytes1, "fbytes1", "bytes1", [u8; 1], false),
		1 => one!(fbytes2, "fbytes2", "bytes2", [u8; 2], false),
		2 => one!(fbytes3, "fbytes3", "bytes3", [u8; 3], false),
		3 => one!(fbytes4, "fbytes4", "bytes4", [u8; 4], false),
		4 => one!(fbytes5, "fbytes5", "bytes5", [u8; 5], false),
		5 => one!(fbytes6, "fbytes6", "bytes6", [u8; 6], false),
		6 => one!(fbytes7, "fbytes7", "bytes7", [u8; 7], false),
		7 => one!(fbytes8, "fbytes8", "bytes8", [u8; 8], false),
		8 => one!(fbytes9, "fbytes9", "bytes9", [u8; 9], false),
		9 => one!(fbytes10, "fbytes10", "bytes10", [u8; 10], false),
		10 => one!(fbytes11, "fbytes11", "bytes11", [u8; 11], false),
		11 => one!(fbytes12, "fbytes12", "bytes12", [u8; 12], false),
		12 => one!(fbytes13, "fbytes13", "bytes13", [u8; 13], false),
		13 => one!(fbytes14, "fbytes14", "bytes14", [u8; 14], false),
		14 => one!(fbytes15, "fbytes15", "bytes15", [u8; 15], false),
		15 => one!(fbytes16, "fbytes16", "bytes16", [u8; 16], false),
		16 => one!(fbytes17, "fbytes17", "bytes17", [u8; 17], false),
		17 => one!(fbytes18, "fbytes18", "bytes18", [u8; 18], false),
		18 => one!(fbytes19, "fbytes19", "bytes19", [u8; 19], false),
		19 => one!(fbytes20, "fbytes20", "bytes20", [u8; 20], false),
		20 => one!(fbytes21, "fbytes21", "bytes21", [u8; 21], false),
		21 => one!(fbytes22, "fbytes22", "bytes22", [u8; 22], false),
		22 => one!(fbytes23, "fbytes23", "bytes23", [u8; 23], false),
		23 => one!(fbytes24, "fbytes24", "bytes24", [u8; 24], false),
		24 => one!(fbytes25, "fbytes25", "bytes25", [u8; 25], false),
		25 => one!(fbytes26, "fbytes26", "bytes26", [u8; 26], false),
		26 => one!(fbytes27, "fbytes27", "bytes27", [u8; 27], false),
		27 => one!(fbytes28, "fbytes28", "bytes28", [u8; 28], false),
		28 => one!(fbytes29, "fbytes29", "bytes29", [u8; 29], false),
		29 => one!(fbytes30, "fbytes30", "bytes30", [u8; 30], false),
		30 => one!(fbytes31, "fbytes31", "bytes31", [u8; 31], false),
		31 => one!(fbytes32, "fbytes32", "bytes32", H256, false),
		32 => one!(fbytes33, "fbytes33", "bytes33", [u8; 33], false),
		33 => one!(fbytes40, "fbytes40", "bytes40", [u8; 40], false),
		_ => one!(fbytes64, "fbytes64", "bytes64", [u8; 64], false),
	}
}
/// generated bindings for fixed bytes of every size 1 to 33, 40 and 64: decoding symbolic results, whole, cut by a byte or empty, and unconstrained words
pub fn bytes_out() {
	match rt::choose(35) {
		0 => one!(fbytes1, "fbytes1", "bytes1", [u8; 1], true),
		1 => one!(fbytes2, "fbytes2", "bytes2", [u8; 2], true),
		2 => one!(fbytes3, "fbytes3", "bytes3", [u8; 3], true),
		3 => one!(fbytes4, "fbytes4", "bytes4", [u8; 4], true),
		4 => one!(fbytes5, "fbytes5", "bytes5", [u8; 5], true),
		5 => one!(fbytes6, "fbytes6", "bytes6", [u8; 6], true),
		6 => one!(fbytes7, "fbytes7", "bytes7", [u8; 7], true),
		7 => one!(fbytes8, "fbytes8", "bytes8", [u8; 8], true),
		8 => one!(fbytes9, "fbytes9", "bytes9", [u8; 9], true),
		9 => one!(fbytes10, "fbytes10", "bytes10", [u8; 10], true),
		10 => one!(fbytes11, "fbytes11", "bytes11", [u8; 11], true),
		11 => one!(fbytes12, "fbytes12", "bytes12", [u8; 12], true),
		12 => one!(fbytes13, "fbytes13", "bytes13", [u8; 13], true),
		13 => one!(fbytes14, "fbytes14", "bytes14", [u8; 14], true),
		14 => one!(fbytes15, "fbytes15", "bytes15", [u8; 15], true),
		15 => one!(fbytes16, "fbytes16", "bytes16", [u8; 16], true),
		16 => one!(fbytes17, "fbytes17", "bytes17", [u8; 17], true),
		17 => one!(fbytes18, "fbytes18", "bytes18", [u8; 18], true),
		18 => one!(fbytes19, "fbytes19", "bytes19", [u8; 19], true),
		19 => one!(fbytes20, "fbytes20", "bytes20", [u8; 20], true),
		20 => one!(fbytes21, "fbytes21", "bytes21", [u8; 21], true),
		21 => one!(fbytes22, "fbytes22", "bytes22", [u8; 22], true),
		22 => one!(fbytes23, "fbytes23", "bytes23", [u8; 23], true),
		23 => one!(fbytes24, "fbytes24", "bytes24", [u8; 24], true),
		24 => one!(fbytes25, "fbytes25", "bytes25", [u8; 25], true),
		25 => one!(fbytes26, "fbytes26", "bytes26", [u8; 26], true),
		26 => one!(fbytes27, "fbytes27", "bytes27", [u8; 27], true),
		27 => one!(fbytes28, "fbytes28", "bytes28", [u8; 28], true),
		28 => one!(fbytes29, "fbytes29", "bytes29", [u8; 29], true),
		29 => one!(fbytes30, "fbytes30", "bytes30", [u8; 30], true),
		30 => one!(fbytes31, "fbytes31", "bytes31", [u8; 31], true),
		31 => one!(fbytes32, "fbytes32", "bytes32", H256, true),
		32 => one!(fbytes33, "fbytes33", "bytes33", [u8; 33], true),
		33 => one!(fbytes40, "fbytes40", "bytes40", [u8; 40], true),
		_ => one!(fbytes64, "fbytes64", "bytes64", [u8; 64], true),
	}
}
/// generated bindings for fixed bytes of every size 1 to 33, 40 and 64: logs of an event with an indexed and a data parameter: own, cut, with a missing, extra or foreign topic
pub fn bytes_log() {
	match rt::choose(35) {
		0 => ev!(ebytes1, event("Ebytes1", false, &[("a", "bytes1", true), ("b", "bytes1", false)]), a, b),
		1 => ev!(ebytes2, event("Ebytes2", false, &[("a", "bytes2", true), ("b", "bytes2", false)]), a, b),
		2 => ev!(ebytes3, event("Ebytes3", false, &[("a", "bytes3", true), ("b", "bytes3", false)]), a, b),
		3 => ev!(ebytes4, event("Ebytes4", false, &[("a", "bytes4", true), ("b", "bytes4", false)]), a, b),
		4 => ev!(ebytes5, event("Ebytes5", false, &[("a", "bytes5", true), ("b", "bytes5", false)]), a, b),
		5 => ev!(ebytes6, event("Ebytes6", false, &[("a", "bytes6", true), ("b", "bytes6", false)]), a, b),
		6 => ev!(ebytes7, event("Ebytes7", false, &[("a", "bytes7", true), ("b", "bytes7", false)]), a, b),
		7 => ev!(ebytes8, event("Ebytes8", false, &[("a", "bytes8", true), ("b", "bytes8", false)]), a, b),
		8 => ev!(ebytes9, event("Ebytes9", false, &[("a", "bytes9", true), ("b", "bytes9", false)]), a, b),
		9 => ev!(ebytes10, event("Ebytes10", false, &[("a", "bytes10", true), ("b", "bytes10", false)]), a, b),
		10 => ev!(ebytes11, event("Ebytes11", false, &[("a", "bytes11", true), ("b", "bytes11", false)]), a, b),
		11 => ev!(ebytes12, event("Ebytes12", false, &[("a", "bytes12", true), ("b", "bytes12", false)]), a, b),
		12 => ev!(ebytes13, event("Ebytes13", false, &[("a", "bytes13", true), ("b", "bytes13", false)]), a, b),
		13 => ev!(ebytes14, event("Ebytes14", false, &[("a", "bytes14", true), ("b", "bytes14", false)]), a, b),
		14 => ev!(ebytes15, event("Ebytes15", false, &[("a", "bytes15", true), ("b", "bytes15", false)]), a, b),
		15 => ev!(ebytes16, event("Ebytes16", false, &[("a", "bytes16", true), ("b", "bytes16", false)]), a, b),
		16 => ev!(ebytes17, event("Ebytes17", false, &[("a", "bytes17", true), ("b", "bytes17", false)]), a, b),
		17 => ev!(ebytes18, event("Ebytes18", false, &[("a", "bytes18", true), ("b", "bytes18", false)]), a, b),
		18 => ev!(ebytes19, event("Ebytes19", false, &[("a", "bytes19", true), ("b", "bytes19", false)]), a, b),
		19 => ev!(ebytes20, event("Ebytes20", false, &[("a", "bytes20", true), ("b", "bytes20", false)]), a, b),
		20 => ev!(ebytes21, event("Ebytes21", false, &[("a", "bytes21", true), ("b", "bytes21", false)]), a, b),
		21 => ev!(ebytes22, event("Ebytes22", false, &[("a", "bytes22", true), ("b", "bytes22", false)]), a, b),
		22 => ev!(ebytes23, event("Ebytes23", false, &[("a", "bytes23", true), ("b", "bytes23", false)]), a, b),
		23 => ev!(ebytes24, event("Ebytes24", false, &[("a", "bytes24", true), ("b", "bytes24", false)]), a, b),
		24 => ev!(ebytes25, event("Ebytes25", false, &[("a", "bytes25", true), ("b", "bytes25", false)]), a, b),
		25 => ev!(ebytes26, event("Ebytes26", false, &[("a", "bytes26", true), ("b", "bytes26", false)]), a, b),
		26 => ev!(ebytes27, event("Ebytes27", false, &[("a", "bytes27", true), ("b", "bytes27", false)]), a, b),
		27 => ev!(ebytes28, event("Ebytes28", false, &[("a", "bytes28", true), ("b", "bytes28", false)]), a, b),
		28 => ev!(ebytes29, event("Ebytes29", false, &[("a", "bytes29", true), ("b", "bytes29", false)]), a, b),
		29 => ev!(ebytes30, event("Ebytes30", false, &[("a", "bytes30", true), ("b", "bytes30", false)]), a, b),
		30 => ev!(ebytes31, event("Ebytes31", false, &[("a", "bytes31", true), ("b", "bytes31", false)]), a, b),
		31 => ev!(ebytes32, event("Ebytes32", false, &[("a", "bytes32", true), ("b", "bytes32", false)]), a, b),
		32 => ev!(ebytes33, event("Ebytes33", false, &[("a", "bytes33", true), ("b", "bytes33", false)]), a, b),
		33 => ev!(ebytes40, event("Ebytes40", false, &[("a", "bytes40", true), ("b", "bytes40", false)]), a, b),
		_ => ev!(ebytes64, event("Ebytes64", false, &[("a", "bytes64", true), ("b", "bytes64", false)]), a, b),
	}
}
/// generated bindings for fixed bytes of every size 1 to 33, 40 and 64: filters: unrestricted, one value, two alternatives at every position
pub fn bytes_filter() {
	match rt::choose(35) {
		0 => fl!(ebytes1, event("Ebytes1", false, &[("a", "bytes1", true), ("b", "bytes1", false)]), [u8; 1]),
		1 => fl!(ebytes2, event("Ebytes2", false, &[("a", "bytes2", true), ("b", "bytes2", false)]), [u8; 2]),
		2 => fl!(ebytes3, event("Ebytes3", false, &[("a", "bytes3", true), ("b", "bytes3", false)]), [u8; 3]),
		3 => fl!(ebytes4, event("Ebytes4", false, &[("a", "bytes4", true), ("b", "bytes4", false)]), [u8; 4]),
		4 => fl!(ebytes5, event("Ebytes5", false, &[("a", "bytes5", true), ("b", "bytes5", false)]), [u8; 5]),
		5 => fl!(ebytes6, event("Ebytes6", false, &[("a", "bytes6", true), ("b", "bytes6", false)]), [u8; 6]),
		6 => fl!(ebytes7, event("Ebytes7", false, &[("a", "bytes7", true), ("b", "bytes7", false)]), [u8; 7]),
		7 => fl!(ebytes8, event("Ebytes8", false, &[("a", "bytes8", true), ("b", "bytes8", false)]), [u8; 8]),
		8 => fl!(ebytes9, event("Ebytes9", false, &[("a", "bytes9", true), ("b", "bytes9", false)]), [u8; 9]),
		9 => fl!(ebytes10, event("Ebytes10", false, &[("a", "bytes10", true), ("b", "bytes10", false)]), [u8; 10]),
		10 => fl!(ebytes11, event("Ebytes11", false, &[("a", "bytes11", true), ("b", "bytes11", false)]), [u8; 11]),
		11 => fl!(ebytes12, event("Ebytes12", false, &[("a", "bytes12", true), ("b", "bytes12", false)]), [u8; 12]),
		12 => fl!(ebytes13, event("Ebytes13", false, &[("a", "bytes13", true), ("b", "bytes13", false)]), [u8; 13]),
		13 => fl!(ebytes14, event("Ebytes14", false, &[("a", "bytes14", true), ("b", "bytes14", false)]), [u8; 14]),
		14 => fl!(ebytes15, event("Ebytes15", false, &[("a", "bytes15", true), ("b", "bytes15", false)]), [u8; 15]),
		15 => fl!(ebytes16, event("Ebytes16", false, &[("a", "bytes16", true), ("b", "bytes16", false)]), [u8; 16]),
		16 => fl!(ebytes17, event("Ebytes17", false, &[("a", "bytes17", true), ("b", "bytes17", false)]), [u8; 17]),
		17 => fl!(ebytes18, event("Ebytes18", false, &[("a", "bytes18", true), ("b", "bytes18", false)]), [u8; 18]),
		18 => fl!(ebytes19, event("Ebytes19", false, &[("a", "bytes19", true), ("b", "bytes19", false)]), [u8; 19]),
		19 => fl!(ebytes20, event("Ebytes20", false, &[("a", "bytes20", true), ("b", "bytes20", false)]), [u8; 20]),
		20 => fl!(ebytes21, event("Ebytes21", false, &[("a", "bytes21", true), ("b", "bytes21", false)]), [u8; 21]),
		21 => fl!(ebytes22, event("Ebytes22", false, &[("a", "bytes22", true), ("b", "bytes22", false)]), [u8; 22]),
		22 => fl!(ebytes23, event("Ebytes23", false, &[("a", "bytes23", true), ("b", "bytes23", false)]), [u8; 23]),
		23 => fl!(ebytes24, event("Ebytes24", false, &[("a", "bytes24", true), ("b", "bytes24", false)]), [u8; 24]),
		24 => fl!(ebytes25, event("Ebytes25", false, &[("a", "bytes25", true), ("b", "bytes25", false)]), [u8; 25]),
		25 => fl!(ebytes26, event("Ebytes26", false, &[("a", "bytes26", true), ("b", "bytes26", false)]), [u8; 26]),
		26 => fl!(ebytes27, event("Ebytes27", false, &[("a", "bytes27", true), ("b", "bytes27", false)]), [u8; 27]),
		27 => fl!(ebytes28, event("Ebytes28", false, &[("a", "bytes28", true), ("b", "bytes28", false)]), [u8; 28]),
		28 => fl!(ebytes29, event("Ebytes29", false, &[("a", "bytes29", true), ("b", "bytes29", false)]), [u8; 29]),
		29 => fl!(ebytes30, event("Ebytes30", false, &[("a", "bytes30", true), ("b", "bytes30", false)]), [u8; 30]),
		30 => fl!(ebytes31, event("Ebytes31", false, &[("a", "bytes31", true), ("b", "bytes31", false)]), [u8; 31]),
		31 => fl!(ebytes32, event("Ebytes32", false, &[("a", "bytes32", true), ("b", "bytes32", false)]), H256),
		32 => fl!(ebytes33, event("Ebytes33", false, &[("a", "bytes33", true), ("b", "bytes33", false)]), [u8; 33]),
		33 => fl!(ebytes40, event("Ebytes40", false, &[("a", "bytes40", true), ("b", "bytes40", false)]), [u8; 40]),
		_ => fl!(ebytes64, event("Ebytes64", false, &[("a", "bytes64", true), ("b", "bytes64", false)]), [u8; 64]),
	}
}
/// generated bindings for unsigned numbers of every width 8 to 256: calls with symbolic arguments
pub fn uints_in() {
	match rt::choose(32) {
		0 => one!(fuint8, "fuint8", "uint8", U256, false),
		1 => one!(fuint16, "fuint16", "uint16", U256, false),
		2 => one!(fuint24, "fuint24", "uint24", U256, false),
		3 => one!(fuint32, "fuint32", "uint32", U256, false),
		4 => one!(fuint40, "fuint40", "uint40", U256, false),
		5 => one!(fuint48, "fuint48", "uint48", U256, false),
		6 => one!(fuint56, "fuint56", "uint56", U256, false),
		7 => one!(fuint64, "fuint64", "uint64", U256, false),
		8 => one!(fuint72, "fuint72", "uint72", U256, false),
		9 => one!(fuint80, "fuint80", "uint80", U256, false),
		10 => one!(fuint88, "fuint88", "uint88", U256, false),
		11 => one!(fuint96, "fuint96", "uint96", U256, false),
		12 => one!(fuint104, "fuint104", "uint104", U256, false),
		13 => one!(fuint112, "fuint112", "uint112", U256, false),
		14 => one!(fuint120, "fuint120", "uint120", U256, false),
		15 => one!(fuint128, "fuint128", "uint128", U256, false),
		16 => one!(fuint136, "fuint136", "uint136", U256, false),
		17 => one!(fuint144, "fuint144", "uint144", U256, false),
		18 => one!(fuint152, "fuint152", "uint152", U256, false),
		19 => one!(fuint160, "fuint160", "uint160", U256, false),
		20 => one!(fuint168, "fuint168", "uint168", U256, false),
		21 => one!(fuint176, "fuint176", "uint176", U256, false),
		22 => one!(fuint184, "fuint184", "uint184", U256, false),
		23 => one!(fuint192, "fuint192", "uint192", U256, false),
		24 => one!(fuint200, "fuint200", "uint200", U256, false),
		25 => one!(fuint208, "fuint208", "uint208", U256, false),
		26 => one!(fuint216, "fuint216", "uint216", U256, false),
		27 => one!(fuint224, "fuint224", "uint224", U256, false),
		28 => one!(fuint232, "fuint232", "uint232", U256, false),
		29 => one!(fuint240, "fuint240", "uint240", U256, false),
		30 => one!(fuint248, "fuint248", "uint248", U256, false),
		_ => one!(fuint256, "fuint256", "uint256", U256, false),
	}
}
/// generated bindings for unsigned numbers of every width 8 to 256: decoding symbolic results, whole, cut by a byte or empty, and unconstrained words
pub fn uints_out() {
	match rt::choose(32) {
		0 => one!(fuint8, "fuint8", "uint8", U256, true),
		1 => one!(fuint16, "fuint16", "uint16", U256, true),
		2 => one!(fuint24, "fuint24", "uint24", U256, true),
		3 => one!(fuint32, "fuint32", "uint32", U256, true),
		4 => one!(fuint40, "fuint40", "uint40", U256, true),
		5 => one!(fuint48, "fuint48", "uint48", U256, true),
		6 => one!(fuint56, "fuint56", "uint56", U256, true),
		7 => one!(fuint64, "fuint64", "uint64", U256, true),
		8 => one!(fuint72, "fuint72", "uint72", U256, true),
		9 => one!(fuint80, "fuint80", "uint80", U256, true),
		10 => one!(fuint88, "fuint88", "uint88", U256, true),
		11 => one!(fuint96, "fuint96", "uint96", U256, true),
		12 => one!(fuint104, "fuint104", "uint104", U256, true),
		13 => one!(fuint112, "fuint112", "uint112", U256, true),
		14 => one!(fuint120, "fuint120", "uint120", U256, true),
		15 => one!(fuint128, "fuint128", "uint128", U256, true),
		16 => one!(fuint136, "fuint136", "uint136", U256, true),
		17 => one!(fuint144, "fuint144", "uint144", U256, true),
		18 => one!(fuint152, "fuint152", "uint152", U256, true),
		19 => one!(fuint160, "fuint160", "uint160", U256, true),
		20 => one!(fuint168, "fuint168", "uint168", U256, true),
		21 => one!(fuint176, "fuint176", "uint176", U256, true),
		22 => one!(fuint184, "fuint184", "uint184", U256, true),
		23 => one!(fuint192, "fuint192", "uint192", U256, true),
		24 => one!(fuint200, "fuint200", "uint200", U256, true),
		25 => one!(fuint208, "fuint208", "uint208", U256, true),
		26 => one!(fuint216, "fuint216", "uint216", U256, true),
		27 => one!(fuint224, "fuint224", "uint224", U256, true),
		28 => one!(fuint232, "fuint232", "uint232", U256, true),
		29 => one!(fuint240, "fuint240", "uint240", U256, true),
		30 => one!(fuint248, "fuint248", "uint248", U256, true),
		_ => one!(fuint256, "fuint256", "uint256", U256, true),
	}
}
/// generated bindings for unsigned numbers of every width 8 to 256: logs of an event with an indexed and a data parameter: own, cut, with a missing, extra or foreign topic
pub fn uints_log() {
	match rt::choose(32) {
		0 => ev!(euint8, event("Euint8", false, &[("a", "uint8", true), ("b", "uint8", false)]), a, b),
		1 => ev!(euint16, event("Euint16", false, &[("a", "uint16", true), ("b", "uint16", false)]), a, b),
		2 => ev!(euint24, event("Euint24", false, &[("a", "uint24", true), ("b", "uint24", false)]), a, b),
		3 => ev!(euint32, event("Euint32", false, &[("a", "uint32", true), ("b", "uint32", false)]), a, b),
		4 => ev!(euint40, event("Euint40", false, &[("a", "uint40", true), ("b", "uint40", false)]), a, b),
		5 => ev!(euint48, event("Euint48", false, &[("a", "uint48", true), ("b", "uint48", false)]), a, b),
		6 => ev!(euint56, event("Euint56", false, &[("a", "uint56", true), ("b", "uint56", false)]), a, b),
		7 => ev!(euint64, event("Euint64", false, &[("a", "uint64", true), ("b", "uint64", false)]), a, b),
		8 => ev!(euint72, event("Euint72", false, &[("a", "uint72", true), ("b", "uint72", false)]), a, b),
		9 => ev!(euint80, event("Euint80", false, &[("a", "uint80", true), ("b", "uint80", false)]), a, b),
		10 => ev!(euint88, event("Euint88", false, &[("a", "uint88", true), ("b", "uint88", false)]), a, b),
		11 => ev!(euint96, event("Euint96", false, &[("a", "uint96", true), ("b", "uint96", false)]), a, b),
		12 => ev!(euint104, event("Euint104", false, &[("a", "uint104", true), ("b", "uint104", false)]), a, b),
		13 => ev!(euint112, event("Euint112", false, &[("a", "uint112", true), ("b", "uint112", false)]), a, b),
		14 => ev!(euint120, event("Euint120", false, &[("a", "uint120", true), ("b", "uint120", false)]), a, b),
		15 => ev!(euint128, event("Euint128", false, &[("a", "uint128", true), ("b", "uint128", false)]), a, b),
		16 => ev!(euint136, event("Euint136", false, &[("a", "uint136", true), ("b", "uint136", false)]), a, b),
		17 => ev!(euint144, event("Euint144", false, &[("a", "uint144", true), ("b", "uint144", false)]), a, b),
		18 => ev!(euint152, event("Euint152", false, &[("a", "uint152", true), ("b", "uint152", false)]), a, b),
		19 => ev!(euint160, event("Euint160", false, &[("a", "uint160", true), ("b", "uint160", false)]), a, b),
		20 => ev!(euint168, event("Euint168", false, &[("a", "uint168", true), ("b", "uint168", false)]), a, b),
		21 => ev!(euint176, event("Euint176", false, &[("a", "uint176", true), ("b", "uint176", false)]), a, b),
		22 => ev!(euint184, event("Euint184", false, &[("a", "uint184", true), ("b", "uint184", false)]), a, b),
		23 => ev!(euint192, event("Euint192", false, &[("a", "uint192", true), ("b", "uint192", false)]), a, b),
		24 => ev!(euint200, event("Euint200", false, &[("a", "uint200", true), ("b", "uint200", false)]), a, b),
		25 => ev!(euint208, event("Euint208", false, &[("a", "uint208", true), ("b", "uint208", false)]), a, b),
		26 => ev!(euint216, event("Euint216", false, &[("a", "uint216", true), ("b", "uint216", false)]), a, b),
		27 => ev!(euint224, event("Euint224", false, &[("a", "uint224", true), ("b", "uint224", false)]), a, b),
		28 => ev!(euint232, event("Euint232", false, &[("a", "uint232", true), ("b", "uint232", false)]), a, b),
		29 => ev!(euint240, event("Euint240", false, &[("a", "uint240", true), ("b", "uint240", false)]), a, b),
		30 => ev!(euint248, event("Euint248", false, &[("a", "uint248", true), ("b", "uint248", false)]), a, b),
		_ => ev!(euint256, event("Euint256", false, &[("a", "uint256", true), ("b", "uint256", false)]), a, b),
	}
}
/// generated bindings for unsigned numbers of every width 8 to 256: filters: unrestricted, one value, two alternatives at every position
pub fn uints_filter() {
	match rt::choose(32) {
		0 => fl!(euint8, event("Euint8", false, &[("a", "uint8", true), ("b", "uint8", false)]), U256),
		1 => fl!(euint16, event("Euint16", false, &[("a", "uint16", true), ("b", "uint16", false)]), U256),
		2 => fl!(euint24, event("Euint24", false, &[("a", "uint24", true), ("b", "uint24", false)]), U256),
		3 => fl!(euint32, event("Euint32", false, &[("a", "uint32", true), ("b", "uint32", false)]), U256),
		4 => fl!(euint40, event("Euint40", false, &[("a", "uint40", true), ("b", "uint40", false)]), U256),
		5 => fl!(euint48, event("Euint48", false, &[("a", "uint48", true), ("b", "uint48", false)]), U256),
		6 => fl!(euint56, event("Euint56", false, &[("a", "uint56", true), ("b", "uint56", false)]), U256),
		7 => fl!(euint64, event("Euint64", false, &[("a", "uint64", true), ("b", "uint64", false)]), U256),
		8 => fl!(euint72, event("Euint72", false, &[("a", "uint72", true), ("b", "uint72", false)]), U256),
		9 => fl!(euint80, event("Euint80", false, &[("a", "uint80", true), ("b", "uint80", false)]), U256),
		10 => fl!(euint88, event("Euint88", false, &[("a", "uint88", true), ("b", "uint88", false)]), U256),
		11 => fl!(euint96, event("Euint96", false, &[("a", "uint96", true), ("b", "uint96", false)]), U256),
		12 => fl!(euint104, event("Euint104", false, &[("a", "uint104", true), ("b", "uint104", false)]), U256),
		13 => fl!(euint112, event("Euint112", false, &[("a", "uint112", true), ("b", "uint112", false)]), U256),
		14 => fl!(euint120, event("Euint120", false, &[("a", "uint120", true), ("b", "uint120", false)]), U256),
		15 => fl!(euint128, event("Euint128", false, &[("a", "uint128", true), ("b", "uint128", false)]), U256),
		16 => fl!(euint136, event("Euint136", false, &[("a", "uint136", true), ("b", "uint136", false)]), U256),
		17 => fl!(euint144, event("Euint144", false, &[("a", "uint144", true), ("b", "uint144", false)]), U256),
		18 => fl!(euint152, event("Euint152", false, &[("a", "uint152", true), ("b", "uint152", false)]), U256),
		19 => fl!(euint160, event("Euint160", false, &[("a", "uint160", true), ("b", "uint160", false)]), U256),
		20 => fl!(euint168, event("Euint168", false, &[("a", "uint168", true), ("b", "uint168", false)]), U256),
		21 => fl!(euint176, event("Euint176", false, &[("a", "uint176", true), ("b", "uint176", false)]), U256),
		22 => fl!(euint184, event("Euint184", false, &[("a", "uint184", true), ("b", "uint184", false)]), U256),
		23 => fl!(euint192, event("Euint192", false, &[("a", "uint192", true), ("b", "uint192", false)]), U256),
		24 => fl!(euint200, event("Euint200", false, &[("a", "uint200", true), ("b", "uint200", false)]), U256),
		25 => fl!(euint208, event("Euint208", false, &[("a", "uint208", true), ("b", "uint208", false)]), U256),
		26 => fl!(euint216, event("Euint216", false, &[("a", "uint216", true), ("b", "uint216", false)]), U256),
		27 => fl!(euint224, event("Euint224", false, &[("a", "uint224", true), ("b", "uint224", false)]), U256),
		28 => fl!(euint232, event("Euint232", false, &[("a", "uint232", true), ("b", "uint232", false)]), U256),
		29 => fl!(euint240, event("Euint240", false, &[("a", "uint240", true), ("b", "uint240", false)]), U256),
		30 => fl!(euint248, event("Euint248", false, &[("a", "uint248", true), ("b", "uint248", false)]), U256),
		_ => fl!(euint256, event("Euint256", false, &[("a", "uint256", true), ("b", "uint256", false)]), U256),
	}
}
/// generated bindings for signed numbers of every width 8 to 256: calls with symbolic arguments
pub fn ints_in() {
	match rt::choose(32) {
		0 => one!(fint8, "fint8", "int8", U256, false),
		1 => one!(fint16, "fint16", "int16", U256, false),
		2 => one!(fint24, "fint24", "int24", U256, false),
		3 => one!(fint32, "fint32", "int32", U256, false),
		4 => one!(fint40, "fint40", "int40", U256, false),
		5 => one!(fint48, "fint48", "int48", U256, false),
		6 => one!(fint56, "fint56", "int56", U256, false),
		7 => one!(fint64, "fint64", "int64", U256, false),
		8 => one!(fint72, "fint72", "int72", U256, false),
		9 => one!(fint80, "fint80", "int80", U256, false),
		10 => one!(fint88, "fint88", "int88", U256, false),
		11 => one!(fint96, "fint96", "int96", U256, false),
		12 => one!(fint104, "fint104", "int104", U256, false),
		13 => one!(fint112, "fint112", "int112", U256, false),
		14 => one!(fint120, "fint120", "int120", U256, false),
		15 => one!(fint128, "fint128", "int128", U256, false),
		16 => one!(fint136, "fint136", "int136", U256, false),
		17 => one!(fint144, "fint144", "int144", U256, false),
		18 => one!(fint152, "fint152", "int152", U256, false),
		19 => one!(fint160, "fint160", "int160", U256, false),
		20 => one!(fint168, "fint168", "int168", U256, false),
		21 => one!(fint176, "fint176", "int176", U256, false),
		22 => one!(fint184, "fint184", "int184", U256, false),
		23 => one!(fint192, "fint192", "int192", U256, false),
		24 => one!(fint200, "fint200", "int200", U256, false),
		25 => one!(fint208, "fint208", "int208", U256, false),
		26 => one!(fint216, "fint216", "int216", U256, false),
		27 => one!(fint224, "fint224", "int224", U256, false),
		28 => one!(fint232, "fint232", "int232", U256, false),
		29 => one!(fint240, "fint240", "int240", U256, false),
		30 => one!(fint248, "fint248", "int248", U256, false),
		_ => one!(fint256, "fint256", "int256", U256, false),
	}
}
/// generated bindings for signed numbers of every width 8 to 256: decoding symbolic results, whole, cut by a byte or empty, and unconstrained words
pub fn ints_out() {
	match rt::choose(32) {
		0 => one!(fint8, "fint8", "int8", U256, true),
		1 => one!(fint16, "fint16", "int16", U256, true),
		2 => one!(fint24, "fint24", "int24", U256, true),
		3 => one!(fint32, "fint32", "int32", U256, true),
		4 => one!(fint40, "fint40", "int40", U256, true),
		5 => one!(fint48, "fint48", "int48", U256, true),
		6 => one!(fint56, "fint56", "int56", U256, true),
		7 => one!(fint64, "fint64", "int64", U256, true),
		8 => one!(fint72, "fint72", "int72", U256, true),
		9 => one!(fint80, "fint80", "int80", U256, true),
		10 => one!(fint88, "fint88", "int88", U256, true),
		11 => one!(fint96, "fint96", "int96", U256, true),
		12 => one!(fint104, "fint104", "int104", U256, true),
		13 => one!(fint112, "fint112", "int112", U256, true),
		14 => one!(fint120, "fint120", "int120", U256, true),
		15 => one!(fint128, "fint128", "int128", U256, true),
		16 => one!(fint136, "fint136", "int136", U256, true),
		17 => one!(fint144, "fint144", "int144", U256, true),
		18 => one!(fint152, "fint152", "int152", U256, true),
		19 => one!(fint160, "fint160", "int160", U256, true),
		20 => one!(fint168, "fint168", "int168", U256, true),
		21 => one!(fint176, "fint176", "int176", U256, true),
		22 => one!(fint184, "fint184", "int184", U256, true),
		23 => one!(fint192, "fint192", "int192", U256, true),
		24 => one!(fint200, "fint200", "int200", U256, true),
		25 => one!(fint208, "fint208", "int208", U256, true),
		26 => one!(fint216, "fint216", "int216", U256, true),
		27 => one!(fint224, "fint224", "int224", U256, true),
		28 => one!(fint232, "fint232", "int232", U256, true),
		29 => one!(fint240, "fint240", "int240", U256, true),
		30 => one!(fint248, "fint248", "int248", U256, true),
		_ => one!(fint256, "fint256", "int256", U256, true),
	}
}
/// generated bindings for signed numbers of every width 8 to 256: logs of an event with an indexed and a data parameter: own, cut, with a missing, extra or foreign topic
pub fn ints_log() {
	match rt::choose(32) {
		0 => ev!(eint8, event("Eint8", false, &[("a", "int8", true), ("b", "int8", false)]), a, b),
		1 => ev!(eint16, event("Eint16", false, &[("a", "int16", true), ("b", "int16", false)]), a, b),
		2 => ev!(eint24, event("Eint24", false, &[("a", "int24", true), ("b", "int24", false)]), a, b),
		3 => ev!(eint32, event("Eint32", false, &[("a", "int32", true), ("b", "int32", false)]), a, b),
		4 => ev!(eint40, event("Eint40", false, &[("a", "int40", true), ("b", "int40", false)]), a, b),
		5 => ev!(eint48, event("Eint48", false, &[("a", "int48", true), ("b", "int48", false)]), a, b),
		6 => ev!(eint56, event("Eint56", false, &[("a", "int56", true), ("b", "int56", false)]), a, b),
		7 => ev!(eint64, event("Eint64", false, &[("a", "int64", true), ("b", "int64", false)]), a, b),
		8 => ev!(eint72, event("Eint72", false, &[("a", "int72", true), ("b", "int72", false)]), a, b),
		9 => ev!(eint80, event("Eint80", false, &[("a", "int80", true), ("b", "int80", false)]), a, b),
		10 => ev!(eint88, event("Eint88", false, &[("a", "int88", true), ("b", "int88", false)]), a, b),
		11 => ev!(eint96, event("Eint96", false, &[("a", "int96", true), ("b", "int96", false)]), a, b),
		12 => ev!(eint104, event("Eint104", false, &[("a", "int104", true), ("b", "int104", false)]), a, b),
		13 => ev!(eint112, event("Eint112", false, &[("a", "int112", true), ("b", "int112", false)]), a, b),
		14 => ev!(eint120, event("Eint120", false, &[("a", "int120", true), ("b", "int120", false)]), a, b),
		15 => ev!(eint128, event("Eint128", false, &[("a", "int128", true), ("b", "int128", false)]), a, b),
		16 => ev!(eint136, event("Eint136", false, &[("a", "int136", true), ("b", "int136", false)]), a, b),
		17 => ev!(eint144, event("Eint144", false, &[("a", "int144", true), ("b", "int144", false)]), a, b),
		18 => ev!(eint152, event("Eint152", false, &[("a", "int152", true), ("b", "int152", false)]), a, b),
		19 => ev!(eint160, event("Eint160", false, &[("a", "int160", true), ("b", "int160", false)]), a, b),
		20 => ev!(eint168, event("Eint168", false, &[("a", "int168", true), ("b", "int168", false)]), a, b),
		21 => ev!(eint176, event("Eint176", false, &[("a", "int176", true), ("b", "int176", false)]), a, b),
		22 => ev!(eint184, event("Eint184", false, &[("a", "int184", true), ("b", "int184", false)]), a, b),
		23 => ev!(eint192, event("Eint192", false, &[("a", "int192", true), ("b", "int192", false)]), a, b),
		24 => ev!(eint200, event("Eint200", false, &[("a", "int200", true), ("b", "int200", false)]), a, b),
		25 => ev!(eint208, event("Eint208", false, &[("a", "int208", true), ("b", "int208", false)]), a, b),
		26 => ev!(eint216, event("Eint216", false, &[("a", "int216", true), ("b", "int216", false)]), a, b),
		27 => ev!(eint224, event("Eint224", false, &[("a", "int224", true), ("b", "int224", false)]), a, b),
		28 => ev!(eint232, event("Eint232", false, &[("a", "int232", true), ("b", "int232", false)]), a, b),
		29 => ev!(eint240, event("Eint240", false, &[("a", "int240", true), ("b", "int240", false)]), a, b),
		30 => ev!(eint248, event("Eint248", false, &[("a", "int248", true), ("b", "int248", false)]), a, b),
		_ => ev!(eint256, event("Eint256", false, &[("a", "int256", true), ("b", "int256", false)]), a, b),
	}
}
/// generated bindings for signed numbers of every width 8 to 256: filters: unrestricted, one value, two alternatives at every position
pub fn ints_filter() {
	match rt::choose(32) {
		0 => fl!(eint8, event("Eint8", false, &[("a", "int8", true), ("b", "int8", false)]), U256),
		1 => fl!(eint16, event("Eint16", false, &[("a", "int16", true), ("b", "int16", false)]), U256),
		2 => fl!(eint24, event("Eint24", false, &[("a", "int24", true), ("b", "int24", false)]), U256),
		3 => fl!(eint32, event("Eint32", false, &[("a", "int32", true), ("b", "int32", false)]), U256),
		4 => fl!(eint40, event("Eint40", false, &[("a", "int40", true), ("b", "int40", false)]), U256),
		5 => fl!(eint48, event("Eint48", false, &[("a", "int48", true), ("b", "int48", false)]), U256),
		6 => fl!(eint56, event("Eint56", false, &[("a", "int56", true), ("b", "int56", false)]), U256),
		7 => fl!(eint64, event("Eint64", false, &[("a", "int64", true), ("b", "int64", false)]), U256),
		8 => fl!(eint72, event("Eint72", false, &[("a", "int72", true), ("b", "int72", false)]), U256),
		9 => fl!(eint80, event("Eint80", false, &[("a", "int80", true), ("b", "int80", false)]), U256),
		10 => fl!(eint88, event("Eint88", false, &[("a", "int88", true), ("b", "int88", false)]), U256),
		11 => fl!(eint96, event("Eint96", false, &[("a", "int96", true), ("b", "int96", false)]), U256),
		12 => fl!(eint104, event("Eint104", false, &[("a", "int104", true), ("b", "int104", false)]), U256),
		13 => fl!(eint112, event("Eint112", false, &[("a", "int112", true), ("b", "int112", false)]), U256),
		14 => fl!(eint120, event("Eint120", false, &[("a", "int120", true), ("b", "int120", false)]), U256),
		15 => fl!(eint128, event("Eint128", false, &[("a", "int128", true), ("b", "int128", false)]), U256),
		16 => fl!(eint136, event("Eint136", false, &[("a", "int136", true), ("b", "int136", false)]), U256),
		17 => fl!(eint144, event("Eint144", false, &[("a", "int144", true), ("b", "int144", false)]), U256),
		18 => fl!(eint152, event("Eint152", false, &[("a", "int152", true), ("b", "int152", false)]), U256),
		19 => fl!(eint160, event("Eint160", false, &[("a", "int160", true), ("b", "int160", false)]), U256),
		20 => fl!(eint168, event("Eint168", false, &[("a", "int168", true), ("b", "int168", false)]), U256),
		21 => fl!(eint176, event("Eint176", false, &[("a", "int176", true), ("b", "int176", false)]), U256),
		22 => fl!(eint184, event("Eint184", false, &[("a", "int184", true), ("b", "int184", false)]), U256),
		23 => fl!(eint192, event("Eint192", false, &[("a", "int192", true), ("b", "int192", false)]), U256),
		24 => fl!(eint200, event("Eint200", false, &[("a", "int200", true), ("b", "int200", false)]), U256),
		25 => fl!(eint208, event("Eint208", false, &[("a", "int208", true), ("b", "int208", false)]), U256),
		26 => fl!(eint216, event("Eint216", false, &[("a", "int216", true), ("b", "int216", false)]), U256),
		27 => fl!(eint224, event("Eint224", false, &[("a", "int224", true), ("b", "int224", false)]), U256),
		28 => fl!(eint232, event("Eint232", false, &[("a", "int232", true), ("b", "int232", false)]), U256),
		29 => fl!(eint240, event("Eint240", false, &[("a", "int240", true), ("b", "int240", false)]), U256),
		30 => fl!(eint248, event("Eint248", false, &[("a", "int248", true), ("b", "int248", false)]), U256),
		_ => fl!(eint256, event("Eint256", false, &[("a", "int256", true), ("b", "int256", false)]), U256),
	}
}
/// generated bindings for fixed arrays of 27 types, of 1 to 33 elements: calls with symbolic arguments
pub fn fixed_in() {
	match rt::choose(27) {
		0 => one!(fuint8k1, "fuint8k1", "uint8[1]", [U256; 1], false),
		1 => one!(fuint8k3, "fuint8k3", "uint8[3]", [U256; 3], false),
		2 => one!(fuint8k4, "fuint8k4", "uint8[4]", [U256; 4], false),
		3 => one!(fuint8k5, "fuint8k5", "uint8[5]", [U256; 5], false),
		4 => one!(fuint8k6, "fuint8k6", "uint8[6]", [U256; 6], false),
		5 => one!(fuint8k7, "fuint8k7", "uint8[7]", [U256; 7], false),
		6 => one!(fuint8k8, "fuint8k8", "uint8[8]", [U256; 8], false),
		7 => one!(fuint8k9, "fuint8k9", "uint8[9]", [U256; 9], false),
		8 => one!(fuint8k10, "fuint8k10", "uint8[10]", [U256; 10], false),
		9 => one!(fuint8k11, "fuint8k11", "uint8[11]", [U256; 11], false),
		10 => one!(fuint8k12, "fuint8k12", "uint8[12]", [U256; 12], false),
		11 => one!(fuint8k16, "fuint8k16", "uint8[16]", [U256; 16], false),
		12 => one!(fuint8k17, "fuint8k17", "uint8[17]", [U256; 17], false),
		13 => one!(fuint8k32, "fuint8k32", "uint8[32]", [U256; 32], false),
		14 => one!(fuint8k33, "fuint8k33", "uint8[33]", [U256; 33], false),
		15 => one!(fstringk1, "fstringk1", "string[1]", [String; 1], false),
		16 => one!(fstringk3, "fstringk3", "string[3]", [String; 3], false),
		17 => one!(fstringk4, "fstringk4", "string[4]", [String; 4], false),
		18 => one!(fstringk5, "fstringk5", "string[5]", [String; 5], false),
		19 => one!(fstringk8, "fstringk8", "string[8]", [String; 8], false),
		20 => one!(fstringk9, "fstringk9", "string[9]", [String; 9], false),
		21 => one!(fbytes4k3, "fbytes4k3", "bytes4[3]", [[u8; 4]; 3], false),
		22 => one!(fbytes32k4, "fbytes32k4", "bytes32[4]", [H256; 4], false),
		23 => one!(fint8k5, "fint8k5", "int8[5]", [U256; 5], false),
		24 => one!(faddressk7, "faddressk7", "address[7]", [H160; 7], false),
		25 => one!(fboolk9, "fboolk9", "bool[9]", [bool; 9], false),
		_ => one!(fbytesk4, "fbytesk4", "bytes[4]", [Vec<u8>; 4], false),
	}
}
/// generated bindings for fixed arrays of 27 types, of 1 to 33 elements: decoding symbolic results, whole, cut by a byte or empty, and unconstrained words
pub fn fixed_out() {
	match rt::choose(27) {
		0 => one!(fuint8k1, "fuint8k1", "uint8[1]", [U256; 1], true),
		1 => one!(fuint8k3, "fuint8k3", "uint8[3]", [U256; 3], true),
		2 => one!(fuint8k4, "fuint8k4", "uint8[4]", [U256; 4], true),
		3 => one!(fuint8k5, "fuint8k5", "uint8[5]", [U256; 5], true),
		4 => one!(fuint8k6, "fuint8k6", "uint8[6]", [U256; 6], true),
		5 => one!(fuint8k7, "fuint8k7", "uint8[7]", [U256; 7], true),
		6 => one!(fuint8k8, "fuint8k8", "uint8[8]", [U256; 8], true),
		7 => one!(fuint8k9, "fuint8k9", "uint8[9]", [U256; 9], true),
		8 => one!(fuint8k10, "fuint8k10", "uint8[10]", [U256; 10], true),
		9 => one!(fuint8k11, "fuint8k11", "uint8[11]", [U256; 11], true),
		10 => one!(fuint8k12, "fuint8k12", "uint8[12]", [U256; 12], true),
		11 => one!(fuint8k16, "fuint8k16", "uint8[16]", [U256; 16], true),
		12 => one!(fuint8k17, "fuint8k17", "uint8[17]", [U256; 17], true),
		13 => one!(fuint8k32, "fuint8k32", "uint8[32]", [U256; 32], true),
		14 => one!(fuint8k33, "fuint8k33", "uint8[33]", [U256; 33], true),
		15 => one!(fstringk1, "fstringk1", "string[1]", [String; 1], true),
		16 => one!(fstringk3, "fstringk3", "string[3]", [String; 3], true),
		17 => one!(fstringk4, "fstringk4", "string[4]", [String; 4], true),
		18 => one!(fstringk5, "fstringk5", "string[5]", [String; 5], true),
		19 => one!(fstringk8, "fstringk8", "string[8]", [String; 8], true),
		20 => one!(fstringk9, "fstringk9", "string[9]", [String; 9], true),
		21 => one!(fbytes4k3, "fbytes4k3", "bytes4[3]", [[u8; 4]; 3], true),
		22 => one!(fbytes32k4, "fbytes32k4", "bytes32[4]", [H256; 4], true),
		23 => one!(fint8k5, "fint8k5", "int8[5]", [U256; 5], true),
		24 => one!(faddressk7, "faddressk7", "address[7]", [H160; 7], true),
		25 => one!(fboolk9, "fboolk9", "bool[9]", [bool; 9], true),
		_ => one!(fbytesk4, "fbytesk4", "bytes[4]", [Vec<u8>; 4], true),
	}
}
/// generated bindings for fixed arrays of 27 types, of 1 to 33 elements: logs of an event with an indexed and a data parameter: own, cut, with a missing, extra or foreign topic
pub fn fixed_log() {
	match rt::choose(27) {
		0 => ev!(euint8k1, event("Euint8k1", false, &[("a", "uint8[1]", true), ("b", "uint8[1]", false)]), a, b),
		1 => ev!(euint8k3, event("Euint8k3", false, &[("a", "uint8[3]", true), ("b", "uint8[3]", false)]), a, b),
		2 => ev!(euint8k4, event("Euint8k4", false, &[("a", "uint8[4]", true), ("b", "uint8[4]", false)]), a, b),
		3 => ev!(euint8k5, event("Euint8k5", false, &[("a", "uint8[5]", true), ("b", "uint8[5]", false)]), a, b),
		4 => ev!(euint8k6, event("Euint8k6", false, &[("a", "uint8[6]", true), ("b", "uint8[6]", false)]), a, b),
		5 => ev!(euint8k7, event("Euint8k7", false, &[("a", "uint8[7]", true), ("b", "uint8[7]", false)]), a, b),
		6 => ev!(euint8k8, event("Euint8k8", false, &[("a", "uint8[8]", true), ("b", "uint8[8]", false)]), a, b),
		7 => ev!(euint8k9, event("Euint8k9", false, &[("a", "uint8[9]", true), ("b", "uint8[9]", false)]), a, b),
		8 => ev!(euint8k10, event("Euint8k10", false, &[("a", "uint8[10]", true), ("b", "uint8[10]", false)]), a, b),
		9 => ev!(euint8k11, event("Euint8k11", false, &[("a", "uint8[11]", true), ("b", "uint8[11]", false)]), a, b),
		10 => ev!(euint8k12, event("Euint8k12", false, &[("a", "uint8[12]", true), ("b", "uint8[12]", false)]), a, b),
		11 => ev!(euint8k16, event("Euint8k16", false, &[("a", "uint8[16]", true), ("b", "uint8[16]", false)]), a, b),
		12 => ev!(euint8k17, event("Euint8k17", false, &[("a", "uint8[17]", true), ("b", "uint8[17]", false)]), a, b),
		13 => ev!(euint8k32, event("Euint8k32", false, &[("a", "uint8[32]", true), ("b", "uint8[32]", false)]), a, b),
		14 => ev!(euint8k33, event("Euint8k33", false, &[("a", "uint8[33]", true), ("b", "uint8[33]", false)]), a, b),
		15 => ev!(estringk1, event("Estringk1", false, &[("a", "string[1]", true), ("b", "string[1]", false)]), a, b),
		16 => ev!(estringk3, event("Estringk3", false, &[("a", "string[3]", true), ("b", "string[3]", false)]), a, b),
		17 => ev!(estringk4, event("Estringk4", false, &[("a", "string[4]", true), ("b", "string[4]", false)]), a, b),
		18 => ev!(estringk5, event("Estringk5", false, &[("a", "string[5]", true), ("b", "string[5]", false)]), a, b),
		19 => ev!(estringk8, event("Estringk8", false, &[("a", "string[8]", true), ("b", "string[8]", false)]), a, b),
		20 => ev!(estringk9, event("Estringk9", false, &[("a", "string[9]", true), ("b", "string[9]", false)]), a, b),
		21 => ev!(ebytes4k3, event("Ebytes4k3", false, &[("a", "bytes4[3]", true), ("b", "bytes4[3]", false)]), a, b),
		22 => ev!(ebytes32k4, event("Ebytes32k4", false, &[("a", "bytes32[4]", true), ("b", "bytes32[4]", false)]), a, b),
		23 => ev!(eint8k5, event("Eint8k5", false, &[("a", "int8[5]", true), ("b", "int8[5]", false)]), a, b),
		24 => ev!(eaddressk7, event("Eaddressk7", false, &[("a", "address[7]", true), ("b", "address[7]", false)]), a, b),
		25 => ev!(eboolk9, event("Eboolk9", false, &[("a", "bool[9]", true), ("b", "bool[9]", false)]), a, b),
		_ => ev!(ebytesk4, event("Ebytesk4", false, &[("a", "bytes[4]", true), ("b", "bytes[4]", false)]), a, b),
	}
}
/// generated bindings for fixed arrays of 27 types, of 1 to 33 elements: filters: unrestricted, one value, two alternatives at every position
pub fn fixed_filter() {
	match rt::choose(27) {
		0 => fl!(euint8k1, event("Euint8k1", false, &[("a", "uint8[1]", true), ("b", "uint8[1]", false)]), [U256; 1]),
		1 => fl!(euint8k3, event("Euint8k3", false, &[("a", "uint8[3]", true), ("b", "uint8[3]", false)]), [U256; 3]),
		2 => fl!(euint8k4, event("Euint8k4", false, &[("a", "uint8[4]", true), ("b", "uint8[4]", false)]), [U256; 4]),
		3 => fl!(euint8k5, event("Euint8k5", false, &[("a", "uint8[5]", true), ("b", "uint8[5]", false)]), [U256; 5]),
		4 => fl!(euint8k6, event("Euint8k6", false, &[("a", "uint8[6]", true), ("b", "uint8[6]", false)]), [U256; 6]),
		5 => fl!(euint8k7, event("Euint8k7", false, &[("a", "uint8[7]", true), ("b", "uint8[7]", false)]), [U256; 7]),
		6 => fl!(euint8k8, event("Euint8k8", false, &[("a", "uint8[8]", true), ("b", "uint8[8]", false)]), [U256; 8]),
		7 => fl!(euint8k9, event("Euint8k9", false, &[("a", "uint8[9]", true), ("b", "uint8[9]", false)]), [U256; 9]),
		8 => fl!(euint8k10, event("Euint8k10", false, &[("a", "uint8[10]", true), ("b", "uint8[10]", false)]), [U256; 10]),
		9 => fl!(euint8k11, event("Euint8k11", false, &[("a", "uint8[11]", true), ("b", "uint8[11]", false)]), [U256; 11]),
		10 => fl!(euint8k12, event("Euint8k12", false, &[("a", "uint8[12]", true), ("b", "uint8[12]", false)]), [U256; 12]),
		11 => fl!(euint8k16, event("Euint8k16", false, &[("a", "uint8[16]", true), ("b", "uint8[16]", false)]), [U256; 16]),
		12 => fl!(euint8k17, event("Euint8k17", false, &[("a", "uint8[17]", true), ("b", "uint8[17]", false)]), [U256; 17]),
		13 => fl!(euint8k32, event("Euint8k32", false, &[("a", "uint8[32]", true), ("b", "uint8[32]", false)]), [U256; 32]),
		14 => fl!(euint8k33, event("Euint8k33", false, &[("a", "uint8[33]", true), ("b", "uint8[33]", false)]), [U256; 33]),
		15 => fl!(estringk1, event("Estringk1", false, &[("a", "string[1]", true), ("b", "string[1]", false)]), [String; 1]),
		16 => fl!(estringk3, event("Estringk3", false, &[("a", "string[3]", true), ("b", "string[3]", false)]), [String; 3]),
		17 => fl!(estringk4, event("Estringk4", false, &[("a", "string[4]", true), ("b", "string[4]", false)]), [String; 4]),
		18 => fl!(estringk5, event("Estringk5", false, &[("a", "string[5]", true), ("b", "string[5]", false)]), [String; 5]),
		19 => fl!(estringk8, event("Estringk8", false, &[("a", "string[8]", true), ("b", "string[8]", false)]), [String; 8]),
		20 => fl!(estringk9, event("Estringk9", false, &[("a", "string[9]", true), ("b", "string[9]", false)]), [String; 9]),
		21 => fl!(ebytes4k3, event("Ebytes4k3", false, &[("a", "bytes4[3]", true), ("b", "bytes4[3]", false)]), [[u8; 4]; 3]),
		22 => fl!(ebytes32k4, event("Ebytes32k4", false, &[("a", "bytes32[4]", true), ("b", "bytes32[4]", false)]), [H256; 4]),
		23 => fl!(eint8k5, event("Eint8k5", false, &[("a", "int8[5]", true), ("b", "int8[5]", false)]), [U256; 5]),
		24 => fl!(eaddressk7, event("Eaddressk7", false, &[("a", "address[7]", true), ("b", "address[7]", false)]), [H160; 7]),
		25 => fl!(eboolk9, event("Eboolk9", false, &[("a", "bool[9]", true), ("b", "bool[9]", false)]), [bool; 9]),
		_ => fl!(ebytesk4, event("Ebytesk4", false, &[("a", "bytes[4]", true), ("b", "bytes[4]", false)]), [Vec<u8>; 4]),
	}
}
/// generated bindings for arrays of 18 types, nested up to 4 deep: calls with symbolic arguments
pub fn deep_in() {
	match rt::choose(18) {
		0 => one!(fboolqqq, "fboolqqq", "bool[][][]", Vec<Vec<Vec<bool>>>, false),
		1 => one!(fuint8k2k2k2, "fuint8k2k2k2", "uint8[2][2][2]", [[[U256; 2]; 2]; 2], false),
		2 => one!(fstringqqq, "fstringqqq", "string[][][]", Vec<Vec<Vec<String>>>, false),
		3 => one!(fbytes4k2qk3, "fbytes4k2qk3", "bytes4[2][][3]", [Vec<[[u8; 4]; 2]>; 3], false),
		4 => one!(fbytes32qk2q, "fbytes32qk2q", "bytes32[][2][]", Vec<[Vec<H256>; 2]>, false),
		5 => one!(faddressk3q, "faddressk3q", "address[3][]", Vec<[H160; 3]>, false),
		6 => one!(fint128qk3, "fint128qk3", "int128[][3]", [Vec<U256>; 3], false),
		7 => one!(fbytesqq, "fbytesqq", "bytes[][]", Vec<Vec<Vec<u8>>>, false),
		8 => one!(fstringk2k2, "fstringk2k2", "string[2][2]", [[String; 2]; 2], false),
		9 => one!(fboolk4k3k2, "fboolk4k3k2", "bool[4][3][2]", [[[bool; 4]; 3]; 2], false),
		10 => one!(fbytes31qq, "fbytes31qq", "bytes31[][]", Vec<Vec<[u8; 31]>>, false),
		11 => one!(fbytes33q, "fbytes33q", "bytes33[]", Vec<[u8; 33]>, false),
		12 => one!(faddressq, "faddressq", "address[]", Vec<H160>, false),
		13 => one!(fint8q, "fint8q", "int8[]", Vec<U256>, false),
		14 => one!(fbytesq, "fbytesq", "bytes[]", Vec<Vec<u8>>, false),
		15 => one!(fbytes1k2, "fbytes1k2", "bytes1[2]", [[u8; 1]; 2], false),
		16 => one!(fuint64qqqq, "fuint64qqqq", "uint64[][][][]", Vec<Vec<Vec<Vec<U256>>>>, false),
		_ => one!(fbytes32k3k2, "fbytes32k3k2", "bytes32[3][2]", [[H256; 3]; 2], false),
	}
}
/// generated bindings for arrays of 18 types, nested up to 4 deep: decoding symbolic results, whole, cut by a byte or empty, and unconstrained words
pub fn deep_out() {
	match rt::choose(18) {
		0 => one!(fboolqqq, "fboolqqq", "bool[][][]", Vec<Vec<Vec<bool>>>, true),
		1 => one!(fuint8k2k2k2, "fuint8k2k2k2", "uint8[2][2][2]", [[[U256; 2]; 2]; 2], true),
		2 => one!(fstringqqq, "fstringqqq", "string[][][]", Vec<Vec<Vec<String>>>, true),
		3 => one!(fbytes4k2qk3, "fbytes4k2qk3", "bytes4[2][][3]", [Vec<[[u8; 4]; 2]>; 3], true),
		4 => one!(fbytes32qk2q, "fbytes32qk2q", "bytes32[][2][]", Vec<[Vec<H256>; 2]>, true),
		5 => one!(faddressk3q, "faddressk3q", "address[3][]", Vec<[H160; 3]>, true),
		6 => one!(fint128qk3, "fint128qk3", "int128[][3]", [Vec<U256>; 3], true),
		7 => one!(fbytesqq, "fbytesqq", "bytes[][]", Vec<Vec<Vec<u8>>>, true),
		8 => one!(fstringk2k2, "fstringk2k2", "string[2][2]", [[String; 2]; 2], true),
		9 => one!(fboolk4k3k2, "fboolk4k3k2", "bool[4][3][2]", [[[bool; 4]; 3]; 2], true),
		10 => one!(fbytes31qq, "fbytes31qq", "bytes31[][]", Vec<Vec<[u8; 31]>>, true),
		11 => one!(fbytes33q, "fbytes33q", "bytes33[]", Vec<[u8; 33]>, true),
		12 => one!(faddressq, "faddressq", "address[]", Vec<H160>, true),
		13 => one!(fint8q, "fint8q", "int8[]", Vec<U256>, true),
		14 => one!(fbytesq, "fbytesq", "bytes[]", Vec<Vec<u8>>, true),
		15 => one!(fbytes1k2, "fbytes1k2", "bytes1[2]", [[u8; 1]; 2], true),
		16 => one!(fuint64qqqq, "fuint64qqqq", "uint64[][][][]", Vec<Vec<Vec<Vec<U256>>>>, true),
		_ => one!(fbytes32k3k2, "fbytes32k3k2", "bytes32[3][2]", [[H256; 3]; 2], true),
	}
}
/// generated bindings for arrays of 18 types, nested up to 4 deep: logs of an event with an indexed and a data parameter: own, cut, with a missing, extra or foreign topic
pub fn deep_log() {
	match rt::choose(18) {
		0 => ev!(eboolqqq, event("Eboolqqq", false, &[("a", "bool[][][]", true), ("b", "bool[][][]", false)]), a, b),
		1 => ev!(euint8k2k2k2, event("Euint8k2k2k2", false, &[("a", "uint8[2][2][2]", true), ("b", "uint8[2][2][2]", false)]), a, b),
		2 => ev!(estringqqq, event("Estringqqq", false, &[("a", "string[][][]", true), ("b", "string[][][]", false)]), a, b),
		3 => ev!(ebytes4k2qk3, event("Ebytes4k2qk3", false, &[("a", "bytes4[2][][3]", true), ("b", "bytes4[2][][3]", false)]), a, b),
		4 => ev!(ebytes32qk2q, event("Ebytes32qk2q", false, &[("a", "bytes32[][2][]", true), ("b", "bytes32[][2][]", false)]), a, b),
		5 => ev!(eaddressk3q, event("Eaddressk3q", false, &[("a", "address[3][]", true), ("b", "address[3][]", false)]), a, b),
		6 => ev!(eint128qk3, event("Eint128qk3", false, &[("a", "int128[][3]", true), ("b", "int128[][3]", false)]), a, b),
		7 => ev!(ebytesqq, event("Ebytesqq", false, &[("a", "bytes[][]", true), ("b", "bytes[][]", false)]), a, b),
		8 => ev!(estringk2k2, event("Estringk2k2", false, &[("a", "string[2][2]", true), ("b", "string[2][2]", false)]), a, b),
		9 => ev!(eboolk4k3k2, event("Eboolk4k3k2", false, &[("a", "bool[4][3][2]", true), ("b", "bool[4][3][2]", false)]), a, b),
		10 => ev!(ebytes31qq, event("Ebytes31qq", false, &[("a", "bytes31[][]", true), ("b", "bytes31[][]", false)]), a, b),
		11 => ev!(ebytes33q, event("Ebytes33q", false, &[("a", "bytes33[]", true), ("b", "bytes33[]", false)]), a, b),
		12 => ev!(eaddressq, event("Eaddressq", false, &[("a", "address[]", true), ("b", "address[]", false)]), a, b),
		13 => ev!(eint8q, event("Eint8q", false, &[("a", "int8[]", true), ("b", "int8[]", false)]), a, b),
		14 => ev!(ebytesq, event("Ebytesq", false, &[("a", "bytes[]", true), ("b", "bytes[]", false)]), a, b),
		15 => ev!(ebytes1k2, event("Ebytes1k2", false, &[("a", "bytes1[2]", true), ("b", "bytes1[2]", false)]), a, b),
		16 => ev!(euint64qqqq, event("Euint64qqqq", false, &[("a", "uint64[][][][]", true), ("b", "uint64[][][][]", false)]), a, b),
		_ => ev!(ebytes32k3k2, event("Ebytes32k3k2", false, &[("a", "bytes32[3][2]", true), ("b", "bytes32[3][2]", false)]), a, b),
	}
}
/// generated bindings for arrays of 18 types, nested up to 4 deep: filters: unrestricted, one value, two alternatives at every position
pub fn deep_filter() {
	match rt::choose(18) {
		0 => fl!(eboolqqq, event("Eboolqqq", false, &[("a", "bool[][][]", true), ("b", "bool[][][]", false)]), Vec<Vec<Vec<bool>>>),
		1 => fl!(euint8k2k2k2, event("Euint8k2k2k2", false, &[("a", "uint8[2][2][2]", true), ("b", "uint8[2][2][2]", false)]), [[[U256; 2]; 2]; 2]),
		2 => fl!(estringqqq, event("Estringqqq", false, &[("a", "string[][][]", true), ("b", "string[][][]", false)]), Vec<Vec<Vec<String>>>),
		3 => fl!(ebytes4k2qk3, event("Ebytes4k2qk3", false, &[("a", "bytes4[2][][3]", true), ("b", "bytes4[2][][3]", false)]), [Vec<[[u8; 4]; 2]>; 3]),
		4 => fl!(ebytes32qk2q, event("Ebytes32qk2q", false, &[("a", "bytes32[][2][]", true), ("b", "bytes32[][2][]", false)]), Vec<[Vec<H256>; 2]>),
		5 => fl!(eaddressk3q, event("Eaddressk3q", false, &[("a", "address[3][]", true), ("b", "address[3][]", false)]), Vec<[H160; 3]>),
		6 => fl!(eint128qk3, event("Eint128qk3", false, &[("a", "int128[][3]", true), ("b", "int128[][3]", false)]), [Vec<U256>; 3]),
		7 => fl!(ebytesqq, event("Ebytesqq", false, &[("a", "bytes[][]", true), ("b", "bytes[][]", false)]), Vec<Vec<Vec<u8>>>),
		8 => fl!(estringk2k2, event("Estringk2k2", false, &[("a", "string[2][2]", true), ("b", "string[2][2]", false)]), [[String; 2]; 2]),
		9 => fl!(eboolk4k3k2, event("Eboolk4k3k2", false, &[("a", "bool[4][3][2]", true), ("b", "bool[4][3][2]", false)]), [[[bool; 4]; 3]; 2]),
		10 => fl!(ebytes31qq, event("Ebytes31qq", false, &[("a", "bytes31[][]", true), ("b", "bytes31[][]", false)]), Vec<Vec<[u8; 31]>>),
		11 => fl!(ebytes33q, event("Ebytes33q", false, &[("a", "bytes33[]", true), ("b", "bytes33[]", false)]), Vec<[u8; 33]>),
		12 => fl!(eaddressq, event("Eaddressq", false, &[("a", "address[]", true), ("b", "address[]", false)]), Vec<H160>),
		13 => fl!(eint8q, event("Eint8q", false, &[("a", "int8[]", true), ("b", "int8[]", false)]), Vec<U256>),
		14 => fl!(ebytesq, event("Ebytesq", false, &[("a", "bytes[]", true), ("b", "bytes[]", false)]), Vec<Vec<u8>>),
		15 => fl!(ebytes1k2, event("Ebytes1k2", false, &[("a", "bytes1[2]", true), ("b", "bytes1[2]", false)]), [[u8; 1]; 2]),
		16 => fl!(euint64qqqq, event("Euint64qqqq", false, &[("a", "uint64[][][][]", true), ("b", "uint64[][][][]", false)]), Vec<Vec<Vec<Vec<U256>>>>),
		_ => fl!(ebytes32k3k2, event("Ebytes32k3k2", false, &[("a", "bytes32[3][2]", true), ("b", "bytes32[3][2]", false)]), [[H256; 3]; 2]),
	}
}
/// generated bindings for 0 to 12 parameters of 12 types (events: 1 to 7, several patterns of indexed ones, anonymous or not): calls with symbolic arguments
pub fn many_in() {
	match rt::choose(26) {
		0 => {
			let ts = types(&[]);
			let v: Vec<Token> = vec![];
			check!(same_call("many0x0", &ts, &v, &wide::functions::many0x0::encode_input()), "bytes of a call");
			check!(same_call("many0x0", &ts, &v, &wide::functions::many0x0::call().0), "bytes of a call");
		},
		1 => {
			let ts = types(&[]);
			let v: Vec<Token> = vec![];
			check!(same_call("many0x5", &ts, &v, &wide::functions::many0x5::encode_input()), "bytes of a call");
			check!(same_call("many0x5", &ts, &v, &wide::functions::many0x5::call().0), "bytes of a call");
		},
		2 => {
			let ts = types(&["uint256"]);
			let v0: U256 = Val::some();
			let v: Vec<Token> = vec![v0.tok(&ts[0])];
			check!(same_call("many1x0", &ts, &v, &wide::functions::many1x0::encode_input(v0.clone())), "bytes of a call");
			check!(same_call("many1x0", &ts, &v, &wide::functions::many1x0::call(v0).0), "bytes of a call");
		},
		3 => {
			let ts = types(&["uint8[]"]);
			let v0: Vec<U256> = Val::some();
			let v: Vec<Token> = vec![v0.tok(&ts[0])];
			check!(same_call("many1x5", &ts, &v, &wide::functions::many1x5::encode_input(v0.clone())), "bytes of a call");
			check!(same_call("many1x5", &ts, &v, &wide::functions::many1x5::call(v0).0), "bytes of a call");
		},
		4 => {
			let ts = types(&["uint256", "uint8[]"]);
			let v0: U256 = Val::some();
			let v1: Vec<U256> = Val::some();
			let v: Vec<Token> = vec![v0.tok(&ts[0]), v1.tok(&ts[1])];
			check!(same_call("many2x0", &ts, &v, &wide::functions::many2x0::encode_input(v0.clone(), v1.clone())), "bytes of a call");
			check!(same_call("many2x0", &ts, &v, &wide::functions::many2x0::call(v0, v1).0), "bytes of a call");
		},
		5 => {
			let ts = types(&["uint8[]", "bytes32[]"]);
			let v0: Vec<U256> = Val::some();
			let v1: Vec<H256> = Val::some();
			let v: Vec<Token> = vec![v0.tok(&ts[0]), v1.tok(&ts[1])];
			check!(same_call("many2x5", &ts, &v, &wide::functions::many2x5::encode_input(v0.clone(), v1.clone())), "bytes of a call");
			check!(same_call("many2x5", &ts, &v, &wide::functions::many2x5::call(v0, v1).0), "bytes of a call");
		},
		6 => {
			let ts = types(&["uint256", "uint8[]", "bytes32[]"]);
			let v0: U256 = Val::some();
			let v1: Vec<U256> = Val::some();
			let v2: Vec<H256> = Val::some();
			let v: Vec<Token> = vec![v0.tok(&ts[0]), v1.tok(&ts[1]), v2.tok(&ts[2])];
			check!(same_call("many3x0", &ts, &v, &wide::functions::many3x0::encode_input(v0.clone(), v1.clone(), v2.clone())), "bytes of a call");
			check!(same_call("many3x0", &ts, &v, &wide::functions::many3x0::call(v0, v1, v2).0), "bytes of a call");
		},
		7 => {
			let ts = types(&["uint8[]", "bytes32[]", "address"]);
			let v0: Vec<U256> = Val::some();
			let v1: Vec<H256> = Val::some();
			let v2: H160 = Val::some();
			let v: Vec<Token> = vec![v0.tok(&ts[0]), v1.tok(&ts[1]), v2.tok(&ts[2])];
			check!(same_call("many3x5", &ts, &v, &wide::functions::many3x5::encode_input(v0.clone(), v1.clone(), v2.clone())), "bytes of a call");
			check!(same_call("many3x5", &ts, &v, &wide::functions::many3x5::call(v0, v1, v2).0), "bytes of a call");
		},
		8 => {
			let ts = types(&["uint256", "uint8[]", "bytes32[]", "address"]);
			let v0: U256 = Val::some();
			let v1: Vec<U256> = Val::some();
			let v2: Vec<H256> = Val::some();
			let v3: H160 = Val::some();
			let v: Vec<Token> = vec![v0.tok(&ts[0]), v1.tok(&ts[1]), v2.tok(&ts[2]), v3.tok(&ts[3])];
			check!(same_call("many4x0", &ts, &v, &wide::functions::many4x0::encode_input(v0.clone(), v1.clone(), v2.clone(), v3.clone())), "bytes of a call");
			check!(same_call("many4x0", &ts, &v, &wide::functions::many4x0::call(v0, v1, v2, v3).0), "bytes of a call");
		},
		9 => {
			let ts = types(&["uint8[]", "bytes32[]", "address", "int16"]);
			let v0: Vec<U256> = Val::some();
			let v1: Vec<H256> = Val::some();
			let v2: H160 = Val::some();
			let v3: U256 = Val::some();
			let v: Vec<Token> = vec![v0.tok(&ts[0]), v1.tok(&ts[1]), v2.tok(&ts[2]), v3.tok(&ts[3])];
			check!(same_call("many4x5", &ts, &v, &wide::functions::many4x5::encode_input(v0.clone(), v1.clone(), v2.clone(), v3.clone())), "bytes of a call");
			check!(same_call("many4x5", &ts, &v, &wide::functions::many4x5::call(v0, v1, v2, v3).0), "bytes of a call");
		},
		10 => {
			let ts = types(&["uint256", "uint8[]", "bytes32[]", "address", "int16"]);
			let v0: U256 = Val::some();
			let v1: Vec<U256> = Val::some();
			let v2: Vec<H256> = Val::some();
			let v3: H160 = Val::some();
			let v4: U256 = Val::some();
			let v: Vec<Token> = vec![v0.tok(&ts[0]), v1.tok(&ts[1]), v2.tok(&ts[2]), v3.tok(&ts[3]), v4.tok(&ts[4])];
			check!(same_call("many5x0", &ts, &v, &wide::functions::many5x0::encode_input(v0.clone(), v1.clone(), v2.clone(), v3.clone(), v4.clone())), "bytes of a call");
			check!(same_call("many5x0", &ts, &v, &wide::functions::many5x0::call(v0, v1, v2, v3, v4).0), "bytes of a call");
		},
		11 => {
			let ts = types(&["uint8[]", "bytes32[]", "address", "int16", "string"]);
			let v0: Vec<U256> = Val::some();
			let v1: Vec<H256> = Val::some();
			let v2: H160 = Val::some();
			let v3: U256 = Val::some();
			let v4: String = Val::some();
			let v: Vec<Token> = vec![v0.tok(&ts[0]), v1.tok(&ts[1]), v2.tok(&ts[2]), v3.tok(&ts[3]), v4.tok(&ts[4])];
			check!(same_call("many5x5", &ts, &v, &wide::functions::many5x5::encode_input(v0.clone(), v1.clone(), v2.clone(), v3.clone(), v4.clone())), "bytes of a call");
			check!(same_call("many5x5", &ts, &v, &wide::functions::many5x5::call(v0, v1, v2, v3, v4).0), "bytes of a call");
		},
		12 => {
			let ts = types(&["uint256", "uint8[]", "bytes32[]", "address", "int16", "string"]);
			let v0: U256 = Val::some();
			let v1: Vec<U256> = Val::some();
			let v2: Vec<H256> = Val::some();
			let v3: H160 = Val::some();
			let v4: U256 = Val::some();
			let v5: String = Val::some();
			let v: Vec<Token> = vec![v0.tok(&ts[0]), v1.tok(&ts[1]), v2.tok(&ts[2]), v3.tok(&ts[3]), v4.tok(&ts[4]), v5.tok(&ts[5])];
			check!(same_call("many6x0", &ts, &v, &wide::functions::many6x0::encode_input(v0.clone(), v1.clone(), v2.clone(), v3.clone(), v4.clone(), v5.clone())), "bytes of a call");
			check!(same_call("many6x0", &ts, &v, &wide::functions::many6x0::call(v0, v1, v2, v3, v4, v5).0), "bytes of a call");
		},
		13 => {
			let ts = types(&["uint8[]", "bytes32[]", "address", "int16", "string", "bytes"]);
			let v0: Vec<U256> = Val::some();
			let v1: Vec<H256> = Val::some();
			let v2: H160 = Val::some();
			let v3: U256 = Val::some();
			let v4: String = Val::some();
			let v5: Vec<u8> = Val::some();
			let v: Vec<Token> = vec![v0.tok(&ts[0]), v1.tok(&ts[1]), v2.tok(&ts[2]), v3.tok(&ts[3]), v4.tok(&ts[4]), v5.tok(&ts[5])];
			check!(same_call("many6x5", &ts, &v, &wide::functions::many6x5::encode_input(v0.clone(), v1.clone(), v2.clone(), v3.clone(), v4.clone(), v5.clone())), "bytes of a call");
			check!(same_call("many6x5", &ts, &v, &wide::functions::many6x5::call(v0, v1, v2, v3, v4, v5).0), "bytes of a call");
		},
		14 => {
			let ts = types(&["uint256", "uint8[]", "bytes32[]", "address", "int16", "string", "bytes"]);
			let v0: U256 = Val::some();
			let v1: Vec<U256> = Val::some();
			let v2: Vec<H256> = Val::some();
			let v3: H160 = Val::some();
			let v4: U256 = Val::some();
			let v5: String = Val::some();
			let v6: Vec<u8> = Val::some();
			let v: Vec<Token> = vec![v0.tok(&ts[0]), v1.tok(&ts[1]), v2.tok(&ts[2]), v3.tok(&ts[3]), v4.tok(&ts[4]), v5.tok(&ts[5]), v6.tok(&ts[6])];
			check!(same_call("many7x0", &ts, &v, &wide::functions::many7x0::encode_input(v0.clone(), v1.clone(), v2.clone(), v3.clone(), v4.clone(), v5.clone(), v6.clone())), "bytes of a call");
			check!(same_call("many7x0", &ts, &v, &wide::functions::many7x0::call(v0, v1, v2, v3, v4, v5, v6).0), "bytes of a call");
		},
		15 => {
			let ts = types(&["uint8[]", "bytes32[]", "address", "int16", "string", "bytes", "int256[3]"]);
			let v0: Vec<U256> = Val::some();
			let v1: Vec<H256> = Val::some();
			let v2: H160 = Val::some();
			let v3: U256 = Val::some();
			let v4: String = Val::some();
			let v5: Vec<u8> = Val::some();
			let v6: [U256; 3] = Val::some();
			let v: Vec<Token> = vec![v0.tok(&ts[0]), v1.tok(&ts[1]), v2.tok(&ts[2]), v3.tok(&ts[3]), v4.tok(&ts[4]), v5.tok(&ts[5]), v6.tok(&ts[6])];
			check!(same_call("many7x5", &ts, &v, &wide::functions::many7x5::encode_input(v0.clone(), v1.clone(), v2.clone(), v3.clone(), v4.clone(), v5.clone(), v6.clone())), "bytes of a call");
			check!(same_call("many7x5", &ts, &v, &wide::functions::many7x5::call(v0, v1, v2, v3, v4, v5, v6).0), "bytes of a call");
		},
		16 => {
			let ts = types(&["uint256", "uint8[]", "bytes32[]", "address", "int16", "string", "bytes", "int256[3]"]);
			let v0: U256 = Val::some();
			let v1: Vec<U256> = Val::some();
			let v2: Vec<H256> = Val::some();
			let v3: H160 = Val::some();
			let v4: U256 = Val::some();
			let v5: String = Val::some();
			let v6: Vec<u8> = Val::some();
			let v7: [U256; 3] = Val::some();
			let v: Vec<Token> = vec![v0.tok(&ts[0]), v1.tok(&ts[1]), v2.tok(&ts[2]), v3.tok(&ts[3]), v4.tok(&ts[4]), v5.tok(&ts[5]), v6.tok(&ts[6]), v7.tok(&ts[7])];
			check!(same_call("many8x0", &ts, &v, &wide::functions::many8x0::encode_input(v0.clone(), v1.clone(), v2.clone(), v3.clone(), v4.clone(), v5.clone(), v6.clone(), v7.clone())), "bytes of a call");
			check!(same_call("many8x0", &ts, &v, &wide::functions::many8x0::call(v0, v1, v2, v3, v4, v5, v6, v7).0), "bytes of a call");
		},
		17 => {
			let ts = types(&["uint8[]", "bytes32[]", "address", "int16", "string", "bytes", "int256[3]", "bytes3"]);
			let v0: Vec<U256> = Val::some();
			let v1: Vec<H256> = Val::some();
			let v2: H160 = Val::some();
			let v3: U256 = Val::some();
			let v4: String = Val::some();
			let v5: Vec<u8> = Val::some();
			let v6: [U256; 3] = Val::some();
			let v7: [u8; 3] = Val::some();
			let v: Vec<Token> = vec![v0.tok(&ts[0]), v1.tok(&ts[1]), v2.tok(&ts[2]), v3.tok(&ts[3]), v4.tok(&ts[4]), v5.tok(&ts[5]), v6.tok(&ts[6]), v7.tok(&ts[7])];
			check!(same_call("many8x5", &ts, &v, &wide::functions::many8x5::encode_input(v0.clone(), v1.clone(), v2.clone(), v3.clone(), v4.clone(), v5.clone(), v6.clone(), v7.clone())), "bytes of a call");
			check!(same_call("many8x5", &ts, &v, &wide::functions::many8x5::call(v0, v1, v2, v3, v4, v5, v6, v7).0), "bytes of a call");
		},
		18 => {
			let ts = types(&["uint256", "uint8[]", "bytes32[]", "address", "int16", "string", "bytes", "int256[3]", "bytes3"]);
			let v0: U256 = Val::some();
			let v1: Vec<U256> = Val::some();
			let v2: Vec<H256> = Val::some();
			let v3: H160 = Val::some();
			let v4: U256 = Val::some();
			let v5: String = Val::some();
			let v6: Vec<u8> = Val::some();
			let v7: [U256; 3] = Val::some();
			let v8: [u8; 3] = Val::some();
			let v: Vec<Token> = vec![v0.tok(&ts[0]), v1.tok(&ts[1]), v2.tok(&ts[2]), v3.tok(&ts[3]), v4.tok(&ts[4]), v5.tok(&ts[5]), v6.tok(&ts[6]), v7.tok(&ts[7]), v8.tok(&ts[8])];
			check!(same_call("many9x0", &ts, &v, &wide::functions::many9x0::encode_input(v0.clone(), v1.clone(), v2.clone(), v3.clone(), v4.clone(), v5.clone(), v6.clone(), v7.clone(), v8.clone())), "bytes of a call");
			check!(same_call("many9x0", &ts, &v, &wide::functions::many9x0::call(v0, v1, v2, v3, v4, v5, v6, v7, v8).0), "bytes of a call");
		},
		19 => {
			let ts = types(&["uint8[]", "bytes32[]", "address", "int16", "string", "bytes", "int256[3]", "bytes3", "string[2]"]);
			let v0: Vec<U256> = Val::some();
			let v1: Vec<H256> = Val::some();
			let v2: H160 = Val::some();
			let v3: U256 = Val::some();
			let v4: String = Val::some();
			let v5: Vec<u8> = Val::some();
			let v6: [U256; 3] = Val::some();
			let v7: [u8; 3] = Val::some();
			let v8: [String; 2] = Val::some();
			let v: Vec<Token> = vec![v0.tok(&ts[0]), v1.tok(&ts[1]), v2.tok(&ts[2]), v3.tok(&ts[3]), v4.tok(&ts[4]), v5.tok(&ts[5]), v6.tok(&ts[6]), v7.tok(&ts[7]), v8.tok(&ts[8])];
			check!(same_call("many9x5", &ts, &v, &wide::functions::many9x5::encode_input(v0.clone(), v1.clone(), v2.clone(), v3.clone(), v4.clone(), v5.clone(), v6.clone(), v7.clone(), v8.clone())), "bytes of a call");
			check!(same_call("many9x5", &ts, &v, &wide::functions::many9x5::call(v0, v1, v2, v3, v4, v5, v6, v7, v8).0), "bytes of a call");
		},
		20 => {
			let ts = types(&["uint256", "uint8[]", "bytes32[]", "address", "int16", "string", "bytes", "int256[3]", "bytes3", "string[2]"]);
			let v0: U256 = Val::some();
			let v1: Vec<U256> = Val::some();
			let v2: Vec<H256> = Val::some();
			let v3: H160 = Val::some();
			let v4: U256 = Val::some();
			let v5: String = Val::some();
			let v6: Vec<u8> = Val::some();
			let v7: [U256; 3] = Val::some();
			let v8: [u8; 3] = Val::some();
			let v9: [String; 2] = Val::some();
			let v: Vec<Token> = vec![v0.tok(&ts[0]), v1.tok(&ts[1]), v2.tok(&ts[2]), v3.tok(&ts[3]), v4.tok(&ts[4]), v5.tok(&ts[5]), v6.tok(&ts[6]), v7.tok(&ts[7]), v8.tok(&ts[8]), v9.tok(&ts[9])];
			check!(same_call("many10x0", &ts, &v, &wide::functions::many10x0::encode_input(v0.clone(), v1.clone(), v2.clone(), v3.clone(), v4.clone(), v5.clone(), v6.clone(), v7.clone(), v8.clone(), v9.clone())), "bytes of a call");
			check!(same_call("many10x0", &ts, &v, &wide::functions::many10x0::call(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9).0), "bytes of a call");
		},
		21 => {
			let ts = types(&["uint8[]", "bytes32[]", "address", "int16", "string", "bytes", "int256[3]", "bytes3", "string[2]", "bool"]);
			let v0: Vec<U256> = Val::some();
			let v1: Vec<H256> = Val::some();
			let v2: H160 = Val::some();
			let v3: U256 = Val::some();
			let v4: String = Val::some();
			let v5: Vec<u8> = Val::some();
			let v6: [U256; 3] = Val::some();
			let v7: [u8; 3] = Val::some();
			let v8: [String; 2] = Val::some();
			let v9: bool = Val::some();
			let v: Vec<Token> = vec![v0.tok(&ts[0]), v1.tok(&ts[1]), v2.tok(&ts[2]), v3.tok(&ts[3]), v4.tok(&ts[4]), v5.tok(&ts[5]), v6.tok(&ts[6]), v7.tok(&ts[7]), v8.tok(&ts[8]), v9.tok(&ts[9])];
			check!(same_call("many10x5", &ts, &v, &wide::functions::many10x5::encode_input(v0.clone(), v1.clone(), v2.clone(), v3.clone(), v4.clone(), v5.clone(), v6.clone(), v7.clone(), v8.clone(), v9.clone())), "bytes of a call");
			check!(same_call("many10x5", &ts, &v, &wide::functions::many10x5::call(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9).0), "bytes of a call");
		},
		22 => {
			let ts = types(&["uint256", "uint8[]", "bytes32[]", "address", "int16", "string", "bytes", "int256[3]", "bytes3", "string[2]", "bool"]);
			let v0: U256 = Val::some();
			let v1: Vec<U256> = Val::some();
			let v2: Vec<H256> = Val::some();
			let v3: H160 = Val::some();
			let v4: U256 = Val::some();
			let v5: String = Val::some();
			let v6: Vec<u8> = Val::some();
			let v7: [U256; 3] = Val::some();
			let v8: [u8; 3] = Val::some();
			let v9: [String; 2] = Val::some();
			let v10: bool = Val::some();
			let v: Vec<Token> = vec![v0.tok(&ts[0]), v1.tok(&ts[1]), v2.tok(&ts[2]), v3.tok(&ts[3]), v4.tok(&ts[4]), v5.tok(&ts[5]), v6.tok(&ts[6]), v7.tok(&ts[7]), v8.tok(&ts[8]), v9.tok(&ts[9]), v10.tok(&ts[10])];
			check!(same_call("many11x0", &ts, &v, &wide::functions::many11x0::encode_input(v0.clone(), v1.clone(), v2.clone(), v3.clone(), v4.clone(), v5.clone(), v6.clone(), v7.clone(), v8.clone(), v9.clone(), v10.clone())), "bytes of a call");
			check!(same_call("many11x0", &ts, &v, &wide::functions::many11x0::call(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10).0), "bytes of a call");
		},
		23 => {
			let ts = types(&["uint8[]", "bytes32[]", "address", "int16", "string", "bytes", "int256[3]", "bytes3", "string[2]", "bool", "bytes32"]);
			let v0: Vec<U256> = Val::some();
			let v1: Vec<H256> = Val::some();
			let v2: H160 = Val::some();
			let v3: U256 = Val::some();
			let v4: String = Val::some();
			let v5: Vec<u8> = Val::some();
			let v6: [U256; 3] = Val::some();
			let v7: [u8; 3] = Val::some();
			let v8: [String; 2] = Val::some();
			let v9: bool = Val::some();
			let v10: H256 = Val::some();
			let v: Vec<Token> = vec![v0.tok(&ts[0]), v1.tok(&ts[1]), v2.tok(&ts[2]), v3.tok(&ts[3]), v4.tok(&ts[4]), v5.tok(&ts[5]), v6.tok(&ts[6]), v7.tok(&ts[7]), v8.tok(&ts[8]), v9.tok(&ts[9]), v10.tok(&ts[10])];
			check!(same_call("many11x5", &ts, &v, &wide::functions::many11x5::encode_input(v0.clone(), v1.clone(), v2.clone(), v3.clone(), v4.clone(), v5.clone(), v6.clone(), v7.clone(), v8.clone(), v9.clone(), v10.clone())), "bytes of a call");
			check!(same_call("many11x5", &ts, &v, &wide::functions::many11x5::call(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10).0), "bytes of a call");
		},
		24 => {
			let ts = types(&["uint256", "uint8[]", "bytes32[]", "address", "int16", "string", "bytes", "int256[3]", "bytes3", "string[2]", "bool", "bytes32"]);
			let v0: U256 = Val::some();
			let v1: Vec<U256> = Val::some();
			let v2: Vec<H256> = Val::some();
			let v3: H160 = Val::some();
			let v4: U256 = Val::some();
			let v5: String = Val::some();
			let v6: Vec<u8> = Val::some();
			let v7: [U256; 3] = Val::some();
			let v8: [u8; 3] = Val::some();
			let v9: [String; 2] = Val::some();
			let v10: bool = Val::some();
			let v11: H256 = Val::some();
			let v: Vec<Token> = vec![v0.tok(&ts[0]), v1.tok(&ts[1]), v2.tok(&ts[2]), v3.tok(&ts[3]), v4.tok(&ts[4]), v5.tok(&ts[5]), v6.tok(&ts[6]), v7.tok(&ts[7]), v8.tok(&ts[8]), v9.tok(&ts[9]), v10.tok(&ts[10]), v11.tok(&ts[11])];
			check!(same_call("many12x0", &ts, &v, &wide::functions::many12x0::encode_input(v0.clone(), v1.clone(), v2.clone(), v3.clone(), v4.clone(), v5.clone(), v6.clone(), v7.clone(), v8.clone(), v9.clone(), v10.clone(), v11.clone())), "bytes of a call");
			check!(same_call("many12x0", &ts, &v, &wide::functions::many12x0::call(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11).0), "bytes of a call");
		},
		_ => {
			let ts = types(&["uint8[]", "bytes32[]", "address", "int16", "string", "bytes", "int256[3]", "bytes3", "string[2]", "bool", "bytes32", "uint256"]);
			let v0: Vec<U256> = Val::some();
			let v1: Vec<H256> = Val::some();
			let v2: H160 = Val::some();
			let v3: U256 = Val::some();
			let v4: String = Val::some();
			let v5: Vec<u8> = Val::some();
			let v6: [U256; 3] = Val::some();
			let v7: [u8; 3] = Val::some();
			let v8: [String; 2] = Val::some();
			let v9: bool = Val::some();
			let v10: H256 = Val::some();
			let v11: U256 = Val::some();
			let v: Vec<Token> = vec![v0.tok(&ts[0]), v1.tok(&ts[1]), v2.tok(&ts[2]), v3.tok(&ts[3]), v4.tok(&ts[4]), v5.tok(&ts[5]), v6.tok(&ts[6]), v7.tok(&ts[7]), v8.tok(&ts[8]), v9.tok(&ts[9]), v10.tok(&ts[10]), v11.tok(&ts[11])];
			check!(same_call("many12x5", &ts, &v, &wide::functions::many12x5::encode_input(v0.clone(), v1.clone(), v2.clone(), v3.clone(), v4.clone(), v5.clone(), v6.clone(), v7.clone(), v8.clone(), v9.clone(), v10.clone(), v11.clone())), "bytes of a call");
			check!(same_call("many12x5", &ts, &v, &wide::functions::many12x5::call(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11).0), "bytes of a call");
		},
	}
}
/// generated bindings for 0 to 12 parameters of 12 types (events: 1 to 7, several patterns of indexed ones, anonymous or not): decoding symbolic results, whole, cut by a byte or empty, and unconstrained words
pub fn many_out() {
	match rt::choose(22) {
		0 => {
			let ts = types(&["address", "bytes32[]"]);
			let data = some(&ts);
			let got = wide::functions::many2x0::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1])]).map_err(|_| ())), "decoded output");
		},
		1 => {
			let ts = types(&["int16", "address"]);
			let data = some(&ts);
			let got = wide::functions::many2x5::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1])]).map_err(|_| ())), "decoded output");
		},
		2 => {
			let ts = types(&["address", "bytes32[]", "uint8[]"]);
			let data = some(&ts);
			let got = wide::functions::many3x0::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1]), r.2.tok(&ts[2])]).map_err(|_| ())), "decoded output");
		},
		3 => {
			let ts = types(&["int16", "address", "bytes32[]"]);
			let data = some(&ts);
			let got = wide::functions::many3x5::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1]), r.2.tok(&ts[2])]).map_err(|_| ())), "decoded output");
		},
		4 => {
			let ts = types(&["address", "bytes32[]", "uint8[]", "uint256"]);
			let data = some(&ts);
			let got = wide::functions::many4x0::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1]), r.2.tok(&ts[2]), r.3.tok(&ts[3])]).map_err(|_| ())), "decoded output");
		},
		5 => {
			let ts = types(&["int16", "address", "bytes32[]", "uint8[]"]);
			let data = some(&ts);
			let got = wide::functions::many4x5::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1]), r.2.tok(&ts[2]), r.3.tok(&ts[3])]).map_err(|_| ())), "decoded output");
		},
		6 => {
			let ts = types(&["address", "bytes32[]", "uint8[]", "uint256", "bytes32"]);
			let data = some(&ts);
			let got = wide::functions::many5x0::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1]), r.2.tok(&ts[2]), r.3.tok(&ts[3]), r.4.tok(&ts[4])]).map_err(|_| ())), "decoded output");
		},
		7 => {
			let ts = types(&["int16", "address", "bytes32[]", "uint8[]", "uint256"]);
			let data = some(&ts);
			let got = wide::functions::many5x5::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1]), r.2.tok(&ts[2]), r.3.tok(&ts[3]), r.4.tok(&ts[4])]).map_err(|_| ())), "decoded output");
		},
		8 => {
			let ts = types(&["address", "bytes32[]", "uint8[]", "uint256", "bytes32", "bool"]);
			let data = some(&ts);
			let got = wide::functions::many6x0::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1]), r.2.tok(&ts[2]), r.3.tok(&ts[3]), r.4.tok(&ts[4]), r.5.tok(&ts[5])]).map_err(|_| ())), "decoded output");
		},
		9 => {
			let ts = types(&["int16", "address", "bytes32[]", "uint8[]", "uint256", "bytes32"]);
			let data = some(&ts);
			let got = wide::functions::many6x5::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1]), r.2.tok(&ts[2]), r.3.tok(&ts[3]), r.4.tok(&ts[4]), r.5.tok(&ts[5])]).map_err(|_| ())), "decoded output");
		},
		10 => {
			let ts = types(&["address", "bytes32[]", "uint8[]", "uint256", "bytes32", "bool", "string[2]"]);
			let data = some(&ts);
			let got = wide::functions::many7x0::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1]), r.2.tok(&ts[2]), r.3.tok(&ts[3]), r.4.tok(&ts[4]), r.5.tok(&ts[5]), r.6.tok(&ts[6])]).map_err(|_| ())), "decoded output");
		},
		11 => {
			let ts = types(&["int16", "address", "bytes32[]", "uint8[]", "uint256", "bytes32", "bool"]);
			let data = some(&ts);
			let got = wide::functions::many7x5::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1]), r.2.tok(&ts[2]), r.3.tok(&ts[3]), r.4.tok(&ts[4]), r.5.tok(&ts[5]), r.6.tok(&ts[6])]).map_err(|_| ())), "decoded output");
		},
		12 => {
			let ts = types(&["address", "bytes32[]", "uint8[]", "uint256", "bytes32", "bool", "string[2]", "bytes3"]);
			let data = some(&ts);
			let got = wide::functions::many8x0::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1]), r.2.tok(&ts[2]), r.3.tok(&ts[3]), r.4.tok(&ts[4]), r.5.tok(&ts[5]), r.6.tok(&ts[6]), r.7.tok(&ts[7])]).map_err(|_| ())), "decoded output");
		},
		13 => {
			let ts = types(&["int16", "address", "bytes32[]", "uint8[]", "uint256", "bytes32", "bool", "string[2]"]);
			let data = some(&ts);
			let got = wide::functions::many8x5::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1]), r.2.tok(&ts[2]), r.3.tok(&ts[3]), r.4.tok(&ts[4]), r.5.tok(&ts[5]), r.6.tok(&ts[6]), r.7.tok(&ts[7])]).map_err(|_| ())), "decoded output");
		},
		14 => {
			let ts = types(&["address", "bytes32[]", "uint8[]", "uint256", "bytes32", "bool", "string[2]", "bytes3", "int256[3]"]);
			let data = some(&ts);
			let got = wide::functions::many9x0::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1]), r.2.tok(&ts[2]), r.3.tok(&ts[3]), r.4.tok(&ts[4]), r.5.tok(&ts[5]), r.6.tok(&ts[6]), r.7.tok(&ts[7]), r.8.tok(&ts[8])]).map_err(|_| ())), "decoded output");
		},
		15 => {
			let ts = types(&["int16", "address", "bytes32[]", "uint8[]", "uint256", "bytes32", "bool", "string[2]", "bytes3"]);
			let data = some(&ts);
			let got = wide::functions::many9x5::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1]), r.2.tok(&ts[2]), r.3.tok(&ts[3]), r.4.tok(&ts[4]), r.5.tok(&ts[5]), r.6.tok(&ts[6]), r.7.tok(&ts[7]), r.8.tok(&ts[8])]).map_err(|_| ())), "decoded output");
		},
		16 => {
			let ts = types(&["address", "bytes32[]", "uint8[]", "uint256", "bytes32", "bool", "string[2]", "bytes3", "int256[3]", "bytes"]);
			let data = some(&ts);
			let got = wide::functions::many10x0::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1]), r.2.tok(&ts[2]), r.3.tok(&ts[3]), r.4.tok(&ts[4]), r.5.tok(&ts[5]), r.6.tok(&ts[6]), r.7.tok(&ts[7]), r.8.tok(&ts[8]), r.9.tok(&ts[9])]).map_err(|_| ())), "decoded output");
		},
		17 => {
			let ts = types(&["int16", "address", "bytes32[]", "uint8[]", "uint256", "bytes32", "bool", "string[2]", "bytes3", "int256[3]"]);
			let data = some(&ts);
			let got = wide::functions::many10x5::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1]), r.2.tok(&ts[2]), r.3.tok(&ts[3]), r.4.tok(&ts[4]), r.5.tok(&ts[5]), r.6.tok(&ts[6]), r.7.tok(&ts[7]), r.8.tok(&ts[8]), r.9.tok(&ts[9])]).map_err(|_| ())), "decoded output");
		},
		18 => {
			let ts = types(&["address", "bytes32[]", "uint8[]", "uint256", "bytes32", "bool", "string[2]", "bytes3", "int256[3]", "bytes", "string"]);
			let data = some(&ts);
			let got = wide::functions::many11x0::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1]), r.2.tok(&ts[2]), r.3.tok(&ts[3]), r.4.tok(&ts[4]), r.5.tok(&ts[5]), r.6.tok(&ts[6]), r.7.tok(&ts[7]), r.8.tok(&ts[8]), r.9.tok(&ts[9]), r.10.tok(&ts[10])]).map_err(|_| ())), "decoded output");
		},
		19 => {
			let ts = types(&["int16", "address", "bytes32[]", "uint8[]", "uint256", "bytes32", "bool", "string[2]", "bytes3", "int256[3]", "bytes"]);
			let data = some(&ts);
			let got = wide::functions::many11x5::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1]), r.2.tok(&ts[2]), r.3.tok(&ts[3]), r.4.tok(&ts[4]), r.5.tok(&ts[5]), r.6.tok(&ts[6]), r.7.tok(&ts[7]), r.8.tok(&ts[8]), r.9.tok(&ts[9]), r.10.tok(&ts[10])]).map_err(|_| ())), "decoded output");
		},
		20 => {
			let ts = types(&["address", "bytes32[]", "uint8[]", "uint256", "bytes32", "bool", "string[2]", "bytes3", "int256[3]", "bytes", "string", "int16"]);
			let data = some(&ts);
			let got = wide::functions::many12x0::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1]), r.2.tok(&ts[2]), r.3.tok(&ts[3]), r.4.tok(&ts[4]), r.5.tok(&ts[5]), r.6.tok(&ts[6]), r.7.tok(&ts[7]), r.8.tok(&ts[8]), r.9.tok(&ts[9]), r.10.tok(&ts[10]), r.11.tok(&ts[11])]).map_err(|_| ())), "decoded output");
		},
		_ => {
			let ts = types(&["int16", "address", "bytes32[]", "uint8[]", "uint256", "bytes32", "bool", "string[2]", "bytes3", "int256[3]", "bytes", "string"]);
			let data = some(&ts);
			let got = wide::functions::many12x5::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|r| vec![r.0.tok(&ts[0]), r.1.tok(&ts[1]), r.2.tok(&ts[2]), r.3.tok(&ts[3]), r.4.tok(&ts[4]), r.5.tok(&ts[5]), r.6.tok(&ts[6]), r.7.tok(&ts[7]), r.8.tok(&ts[8]), r.9.tok(&ts[9]), r.10.tok(&ts[10]), r.11.tok(&ts[11])]).map_err(|_| ())), "decoded output");
		},
	}
}
/// generated bindings for 0 to 12 parameters of 12 types (events: 1 to 7, several patterns of indexed ones, anonymous or not): logs of an event with an indexed and a data parameter: own, cut, with a missing, extra or foreign topic
pub fn many_log() {
	match rt::choose(35) {
		0 => ev!(m1p0, event("M1p0", false, &[("p0", "string", false)]), p0),
		1 => ev!(m1p1, event("M1p1", false, &[("p0", "bool", true)]), p0),
		2 => ev!(m2p0, event("M2p0", true, &[("p0", "address", false), ("", "int16", false)]), p0, param1),
		3 => ev!(m2p1, event("M2p1", false, &[("", "bytes3", true), ("p1", "string[2]", false)]), topic0, p1),
		4 => ev!(m2p2, event("M2p2", false, &[("p0", "uint8[]", false), ("p1", "bytes32[]", true)]), p0, p1),
		5 => ev!(m2p3, event("M2p3", true, &[("p0", "bytes", true), ("p1", "int256[3]", true)]), p0, p1),
		6 => ev!(m3p0, event("M3p0", false, &[("p0", "bytes32", false), ("", "uint256", false), ("p2", "uint8[]", false)]), p0, param1, p2),
		7 => ev!(m3p1, event("M3p1", false, &[("", "int16", true), ("p1", "string", false), ("p2", "bytes", false)]), topic0, p1, p2),
		8 => ev!(m3p4, event("M3p4", true, &[("p0", "string[2]", false), ("p1", "bool", false), ("p2", "bytes32", true)]), p0, p1, p2),
		9 => ev!(m3p5, event("M3p5", false, &[("p0", "bytes32[]", true), ("p1", "address", false), ("", "int16", true)]), p0, p1, topic2),
		10 => ev!(m3p6, event("M3p6", false, &[("p0", "int256[3]", false), ("", "bytes3", true), ("p2", "string[2]", true)]), p0, topic1, p2),
		11 => ev!(m3p7, event("M3p7", true, &[("", "uint256", true), ("p1", "uint8[]", true), ("p2", "bytes32[]", true)]), topic0, p1, p2),
		12 => ev!(m4p0, event("M4p0", false, &[("p0", "string", false), ("p1", "bytes", false), ("p2", "int256[3]", false), ("", "bytes3", false)]), p0, p1, p2, param3),
		13 => ev!(m4p1, event("M4p1", false, &[("p0", "bool", true), ("p1", "bytes32", false), ("", "uint256", false), ("p3", "uint8[]", false)]), p0, p1, param2, p3),
		14 => ev!(m4p5, event("M4p5", true, &[("p0", "address", true), ("", "int16", false), ("p2", "string", true), ("p3", "bytes", false)]), p0, param1, p2, p3),
		15 => ev!(m4p6, event("M4p6", false, &[("", "bytes3", false), ("p1", "string[2]", true), ("p2", "bool", true), ("p3", "bytes32", false)]), param0, p1, p2, p3),
		16 => ev!(m4p8, event("M4p8", false, &[("p0", "uint8[]", false), ("p1", "bytes32[]", false), ("p2", "address", false), ("", "int16", true)]), p0, p1, p2, topic3),
		17 => ev!(m4p14, event("M4p14", true, &[("p0", "bytes", false), ("p1", "int256[3]", true), ("", "bytes3", true), ("p3", "string[2]", true)]), p0, p1, topic2, p3),
		18 => ev!(m5p0, event("M5p0", false, &[("p0", "bytes32", false), ("", "uint256", false), ("p2", "uint8[]", false), ("p3", "bytes32[]", false), ("p4", "address", false)]), p0, param1, p2, p3, p4),
		19 => ev!(m5p1, event("M5p1", false, &[("", "int16", true), ("p1", "string", false), ("p2", "bytes", false), ("p3", "int256[3]", false), ("", "bytes3", false)]), topic0, p1, p2, p3, param4),
		20 => ev!(m5p5, event("M5p5", true, &[("p0", "string[2]", true), ("p1", "bool", false), ("p2", "bytes32", true), ("", "uint256", false), ("p4", "uint8[]", false)]), p0, p1, p2, param3, p4),
		21 => ev!(m5p6, event("M5p6", false, &[("p0", "bytes32[]", false), ("p1", "address", true), ("", "int16", true), ("p3", "string", false), ("p4", "bytes", false)]), p0, p1, topic2, p3, p4),
		22 => ev!(m5p16, event("M5p16", false, &[("p0", "int256[3]", false), ("", "bytes3", false), ("p2", "string[2]", false), ("p3", "bool", false), ("p4", "bytes32", true)]), p0, param1, p2, p3, p4),
		23 => ev!(m5p21, event("M5p21", true, &[("", "uint256", true), ("p1", "uint8[]", false), ("p2", "bytes32[]", true), ("p3", "address", false), ("", "int16", true)]), topic0, p1, p2, p3, topic4),
		24 => ev!(m6p0, event("M6p0", false, &[("p0", "string", false), ("p1", "bytes", false), ("p2", "int256[3]", false), ("", "bytes3", false), ("p4", "string[2]", false), ("p5", "bool", false)]), p0, p1, p2, param3, p4, p5),
		25 => ev!(m6p1, event("M6p1", false, &[("p0", "bool", true), ("p1", "bytes32", false), ("", "uint256", false), ("p3", "uint8[]", false), ("p4", "bytes32[]", false), ("p5", "address", false)]), p0, p1, param2, p3, p4, p5),
		26 => ev!(m6p5, event("M6p5", true, &[("p0", "address", true), ("", "int16", false), ("p2", "string", true), ("p3", "bytes", false), ("p4", "int256[3]", false), ("", "bytes3", false)]), p0, param1, p2, p3, p4, param5),
		27 => ev!(m6p6, event("M6p6", false, &[("", "bytes3", false), ("p1", "string[2]", true), ("p2", "bool", true), ("p3", "bytes32", false), ("", "uint256", false), ("p5", "uint8[]", false)]), param0, p1, p2, p3, param4, p5),
		28 => ev!(m6p21, event("M6p21", false, &[("p0", "uint8[]", true), ("p1", "bytes32[]", false), ("p2", "address", true), ("", "int16", false), ("p4", "string", true), ("p5", "bytes", false)]), p0, p1, p2, param3, p4, p5),
		29 => ev!(m6p32, event("M6p32", true, &[("p0", "bytes", false), ("p1", "int256[3]", false), ("", "bytes3", false), ("p3", "string[2]", false), ("p4", "bool", false), ("p5", "bytes32", true)]), p0, p1, param2, p3, p4, p5),
		30 => ev!(m7p0, event("M7p0", false, &[("p0", "bytes32", false), ("", "uint256", false), ("p2", "uint8[]", false), ("p3", "bytes32[]", false), ("p4", "address", false), ("", "int16", false), ("p6", "string", false)]), p0, param1, p2, p3, p4, param5, p6),
		31 => ev!(m7p1, event("M7p1", false, &[("", "int16", true), ("p1", "string", false), ("p2", "bytes", false), ("p3", "int256[3]", false), ("", "bytes3", false), ("p5", "string[2]", false), ("p6", "bool", false)]), topic0, p1, p2, p3, param4, p5, p6),
		32 => ev!(m7p5, event("M7p5", true, &[("p0", "string[2]", true), ("p1", "bool", false), ("p2", "bytes32", true), ("", "uint256", false), ("p4", "uint8[]", false), ("p5", "bytes32[]", false), ("p6", "address", false)]), p0, p1, p2, param3, p4, p5, p6),
		33 => ev!(m7p6, event("M7p6", false, &[("p0", "bytes32[]", false), ("p1", "address", true), ("", "int16", true), ("p3", "string", false), ("p4", "bytes", false), ("p5", "int256[3]", false), ("", "bytes3", false)]), p0, p1, topic2, p3, p4, p5, param6),
		_ => ev!(m7p64, event("M7p64", false, &[("p0", "int256[3]", false), ("", "bytes3", false), ("p2", "string[2]", false), ("p3", "bool", false), ("p4", "bytes32", false), ("", "uint256", false), ("p6", "uint8[]", true)]), p0, param1, p2, p3, p4, param5, p6),
	}
}
/// generated bindings for 0 to 12 parameters of 12 types (events: 1 to 7, several patterns of indexed ones, anonymous or not): filters: unrestricted, one value, two alternatives at every position
pub fn many_filter() {
	match rt::choose(35) {
		0 => fl!(m1p0, event("M1p0", false, &[("p0", "string", false)]), ),
		1 => fl!(m1p1, event("M1p1", false, &[("p0", "bool", true)]), bool),
		2 => fl!(m2p0, event("M2p0", true, &[("p0", "address", false), ("", "int16", false)]), ),
		3 => fl!(m2p1, event("M2p1", false, &[("", "bytes3", true), ("p1", "string[2]", false)]), [u8; 3]),
		4 => fl!(m2p2, event("M2p2", false, &[("p0", "uint8[]", false), ("p1", "bytes32[]", true)]), Vec<H256>),
		5 => fl!(m2p3, event("M2p3", true, &[("p0", "bytes", true), ("p1", "int256[3]", true)]), Vec<u8>, [U256; 3]),
		6 => fl!(m3p0, event("M3p0", false, &[("p0", "bytes32", false), ("", "uint256", false), ("p2", "uint8[]", false)]), ),
		7 => fl!(m3p1, event("M3p1", false, &[("", "int16", true), ("p1", "string", false), ("p2", "bytes", false)]), U256),
		8 => fl!(m3p4, event("M3p4", true, &[("p0", "string[2]", false), ("p1", "bool", false), ("p2", "bytes32", true)]), H256),
		9 => fl!(m3p5, event("M3p5", false, &[("p0", "bytes32[]", true), ("p1", "address", false), ("", "int16", true)]), Vec<H256>, U256),
		10 => fl!(m3p6, event("M3p6", false, &[("p0", "int256[3]", false), ("", "bytes3", true), ("p2", "string[2]", true)]), [u8; 3], [String; 2]),
		11 => fl!(m3p7, event("M3p7", true, &[("", "uint256", true), ("p1", "uint8[]", true), ("p2", "bytes32[]", true)]), U256, Vec<U256>, Vec<H256>),
		12 => fl!(m4p0, event("M4p0", false, &[("p0", "string", false), ("p1", "bytes", false), ("p2", "int256[3]", false), ("", "bytes3", false)]), ),
		13 => fl!(m4p1, event("M4p1", false, &[("p0", "bool", true), ("p1", "bytes32", false), ("", "uint256", false), ("p3", "uint8[]", false)]), bool),
		14 => fl!(m4p5, event("M4p5", true, &[("p0", "address", true), ("", "int16", false), ("p2", "string", true), ("p3", "bytes", false)]), H160, String),
		15 => fl!(m4p6, event("M4p6", false, &[("", "bytes3", false), ("p1", "string[2]", true), ("p2", "bool", true), ("p3", "bytes32", false)]), [String; 2], bool),
		16 => fl!(m4p8, event("M4p8", false, &[("p0", "uint8[]", false), ("p1", "bytes32[]", false), ("p2", "address", false), ("", "int16", true)]), U256),
		17 => fl!(m4p14, event("M4p14", true, &[("p0", "bytes", false), ("p1", "int256[3]", true), ("", "bytes3", true), ("p3", "string[2]", true)]), [U256; 3], [u8; 3], [String; 2]),
		18 => fl!(m5p0, event("M5p0", false, &[("p0", "bytes32", false), ("", "uint256", false), ("p2", "uint8[]", false), ("p3", "bytes32[]", false), ("p4", "address", false)]), ),
		19 => fl!(m5p1, event("M5p1", false, &[("", "int16", true), ("p1", "string", false), ("p2", "bytes", false), ("p3", "int256[3]", false), ("", "bytes3", false)]), U256),
		20 => fl!(m5p5, event("M5p5", true, &[("p0", "string[2]", true), ("p1", "bool", false), ("p2", "bytes32", true), ("", "uint256", false), ("p4", "uint8[]", false)]), [String; 2], H256),
		21 => fl!(m5p6, event("M5p6", false, &[("p0", "bytes32[]", false), ("p1", "address", true), ("", "int16", true), ("p3", "string", false), ("p4", "bytes", false)]), H160, U256),
		22 => fl!(m5p16, event("M5p16", false, &[("p0", "int256[3]", false), ("", "bytes3", false), ("p2", "string[2]", false), ("p3", "bool", false), ("p4", "bytes32", true)]), H256),
		23 => fl!(m5p21, event("M5p21", true, &[("", "uint256", true), ("p1", "uint8[]", false), ("p2", "bytes32[]", true), ("p3", "address", false), ("", "int16", true)]), U256, Vec<H256>, U256),
		24 => fl!(m6p0, event("M6p0", false, &[("p0", "string", false), ("p1", "bytes", false), ("p2", "int256[3]", false), ("", "bytes3", false), ("p4", "string[2]", false), ("p5", "bool", false)]), ),
		25 => fl!(m6p1, event("M6p1", false, &[("p0", "bool", true), ("p1", "bytes32", false), ("", "uint256", false), ("p3", "uint8[]", false), ("p4", "bytes32[]", false), ("p5", "address", false)]), bool),
		26 => fl!(m6p5, event("M6p5", true, &[("p0", "address", true), ("", "int16", false), ("p2", "string", true), ("p3", "bytes", false), ("p4", "int256[3]", false), ("", "bytes3", false)]), H160, String),
		27 => fl!(m6p6, event("M6p6", false, &[("", "bytes3", false), ("p1", "string[2]", true), ("p2", "bool", true), ("p3", "bytes32", false), ("", "uint256", false), ("p5", "uint8[]", false)]), [String; 2], bool),
		28 => fl!(m6p21, event("M6p21", false, &[("p0", "uint8[]", true), ("p1", "bytes32[]", false), ("p2", "address", true), ("", "int16", false), ("p4", "string", true), ("p5", "bytes", false)]), Vec<U256>, H160, String),
		29 => fl!(m6p32, event("M6p32", true, &[("p0", "bytes", false), ("p1", "int256[3]", false), ("", "bytes3", false), ("p3", "string[2]", false), ("p4", "bool", false), ("p5", "bytes32", true)]), H256),
		30 => fl!(m7p0, event("M7p0", false, &[("p0", "bytes32", false), ("", "uint256", false), ("p2", "uint8[]", false), ("p3", "bytes32[]", false), ("p4", "address", false), ("", "int16", false), ("p6", "string", false)]), ),
		31 => fl!(m7p1, event("M7p1", false, &[("", "int16", true), ("p1", "string", false), ("p2", "bytes", false), ("p3", "int256[3]", false), ("", "bytes3", false), ("p5", "string[2]", false), ("p6", "bool", false)]), U256),
		32 => fl!(m7p5, event("M7p5", true, &[("p0", "string[2]", true), ("p1", "bool", false), ("p2", "bytes32", true), ("", "uint256", false), ("p4", "uint8[]", false), ("p5", "bytes32[]", false), ("p6", "address", false)]), [String; 2], H256),
		33 => fl!(m7p6, event("M7p6", false, &[("p0", "bytes32[]", false), ("p1", "address", true), ("", "int16", true), ("p3", "string", false), ("p4", "bytes", false), ("p5", "int256[3]", false), ("", "bytes3", false)]), H160, U256),
		_ => fl!(m7p64, event("M7p64", false, &[("p0", "int256[3]", false), ("", "bytes3", false), ("p2", "string[2]", false), ("p3", "bool", false), ("p4", "bytes32", false), ("", "uint256", false), ("p6", "uint8[]", true)]), Vec<U256>),
	}
}
/// generated bindings for functions with names of 9 styles (capitals, digits, underscores, long): calls with symbolic arguments
pub fn names_in() {
	match rt::choose(9) {
		0 => one!(set_url, "setURL", "bool", bool, false),
		1 => one!(hidden, "_hidden", "bool", bool, false),
		2 => one!(abc_def, "ABCDef", "bool", bool, false),
		3 => one!(x1y2, "x1y2", "bool", bool, false),
		4 => one!(get_value, "get_Value", "bool", bool, false),
		5 => one!(capital, "Capital", "bool", bool, false),
		6 => one!(trailing, "trailing_", "bool", bool, false),
		7 => one!(two_parts, "two__parts", "bool", bool, false),
		_ => one!(a_very_long_function_name_that_goes_on_and_on_until_it_is_longer_than_any_block_of_anything_that_anybody_would_use_for_names, "aVeryLongFunctionNameThatGoesOnAndOnUntilItIsLongerThanAnyBlockOfAnythingThatAnybodyWouldUseForNames", "bool", bool, false),
	}
}
/// generated bindings for functions with names of 9 styles (capitals, digits, underscores, long): decoding symbolic results, whole, cut by a byte or empty, and unconstrained words
pub fn names_out() {
	match rt::choose(9) {
		0 => one!(set_url, "setURL", "bool", bool, true),
		1 => one!(hidden, "_hidden", "bool", bool, true),
		2 => one!(abc_def, "ABCDef", "bool", bool, true),
		3 => one!(x1y2, "x1y2", "bool", bool, true),
		4 => one!(get_value, "get_Value", "bool", bool, true),
		5 => one!(capital, "Capital", "bool", bool, true),
		6 => one!(trailing, "trailing_", "bool", bool, true),
		7 => one!(two_parts, "two__parts", "bool", bool, true),
		_ => one!(a_very_long_function_name_that_goes_on_and_on_until_it_is_longer_than_any_block_of_anything_that_anybody_would_use_for_names, "aVeryLongFunctionNameThatGoesOnAndOnUntilItIsLongerThanAnyBlockOfAnythingThatAnybodyWouldUseForNames", "bool", bool, true),
	}
}
/// a generated constructor with 9 parameters
pub fn many_ctor() {
	let code = rt::bytes(rt::pick(&[0, 33]));
	let ts = types(&["uint256", "string", "bool", "address", "bytes3", "uint8[]", "bytes", "bytes32", "int16"]);
	let v0: U256 = Val::some();
	let v1: String = Val::some();
	let v2: bool = Val::some();
	let v3: H160 = Val::some();
	let v4: [u8; 3] = Val::some();
	let v5: Vec<U256> = Val::some();
	let v6: Vec<u8> = Val::some();
	let v7: H256 = Val::some();
	let v8: U256 = Val::some();
	let v: Vec<Token> = vec![v0.tok(&ts[0]), v1.tok(&ts[1]), v2.tok(&ts[2]), v3.tok(&ts[3]), v4.tok(&ts[4]), v5.tok(&ts[5]), v6.tok(&ts[6]), v7.tok(&ts[7]), v8.tok(&ts[8])];
	let got = wide::constructor(code.clone(), v0, v1, v2, v3, v4, v5, v6, v7, v8);
	match (ethabi::Constructor { inputs: gen::params(&ts) }).encode_input(code, &v) {
		Ok(w) => check!(rt::same(&got, &w), "bytes of a constructor call"),
		Err(_) => check!(false, "the library rejects the arguments"),
	}
}
