// written by tools/gen_bindings.py
use super::*;
use_contract!(wide, "../harness/abi/wide.abi");
const _ABI: &str = include_str!("../abi/wide.abi");

/// results to decode: an encoding of symbolic values, whole or cut by a byte, nothing, or unconstrained words
fn some(ts: &[T]) -> Vec<u8> {
	rt::ascii(true);
	let v: Vec<Token> = ts.iter().map(|t| gen::sized(t, 3, 2)).collect();
	let mut e = spec::enc(&v);
	match rt::choose(4) {
		0 => e,
		1 => {
			e.pop();
			e
		}
		2 => vec![],
		_ => {
			let i = rt::choose(e.len() / 32 + 1).min(3);
			if 32 * i + 32 <= e.len() {
				e[32 * i..32 * i + 28].copy_from_slice(&rt::arr::<28>());
			}
			e
		}
	}
}
macro_rules! one {
	($m:ident, $name:literal, $t:literal, $r:ty, $dec:expr) => {{
		let ts = types(&[$t]);
		if $dec {
			let data = some(&ts);
			let got = wide::functions::$m::decode_output(&data);
			check!(same_out(&ts, &data, got.map(|x: $r| vec![x.tok(&ts[0])]).map_err(|_| ())), "decoded output");
		} else {
			let x: $r = Val::some();
			let v = [x.tok(&ts[0])];
			check!(same_call($name, &ts, &v, &wide::functions::$m::encode_input(x.clone())), "bytes of a call");
			let (b, d) = wide::functions::$m::call(x);
			check!(same_call($name, &ts, &v, &b), "bytes of a call");
			let e = spec::enc(&v);
			check!(same_out(&ts, &e, d.decode(&e).map(|x: $r| vec![x.tok(&ts[0])]).map_err(|_| ())), "decoded by the decoder of the call");
		}
	}};
}
/// a log of the event, or one with a topic missing, extra or foreign, or with its data cut
fn own(e: &Event) -> RawLog {
	let mut topics = vec![];
	if !e.anonymous {
		topics.push(sig(e));
	}
	for p in &e.inputs {
		if p.indexed {
			topics.push(H256(rt::arr()));
		}
	}
	let mut data = vec![];
	for p in e.inputs.iter().filter(|p| !p.indexed) {
		data.push(gen::sized(&p.kind, 3, 2));
	}
	let mut data = spec::enc(&data);
	rt::ascii(true);
	match rt::choose(5) {
		0 => {}
		1 => {
			topics.pop();
		}
		2 => topics.push(H256(rt::arr())),
		3 => {
			if let Some(t) = topics.first_mut() {
				*t = H256(rt::arr());
			}
		}
		_ => {
			data.pop();
		}
	}
	RawLog { topics, data }
}
macro_rules! ev {
	($m:ident, $e:expr, $($f:ident),*) => {{
		let e = $e;
		check!(same_event(&wide::events::$m::event(), &e), "declaration of the event");
		let l = own(&e);
		let got = wide::events::$m::parse_log(l.clone());
		#[allow(unused)]
		let fs = fields(&e);
		#[allow(unused)]
		let got = got.map(|l| { let mut i = 0; let mut v: Vec<Token> = vec![]; $( v.push(l.$f.tok(&fs[i])); i += 1; )* v }).map_err(|_| ());
		check!(same_log(&e, l, got), "parsed log");
	}};
}
fn any<V: Val>() -> Topic<V> {
	match rt::choose(3) {
		0 => Topic::Any,
		1 => Topic::This(V::some()),
		_ => Topic::OneOf(vec![V::some(), V::some()]),
	}
}
fn as_toks<V: Val>(t: &Topic<V>, k: &T) -> Topic<Token> {
	match t {
		Topic::Any => Topic::Any,
		Topic::This(x) => Topic::This(x.tok(k)),
		Topic::OneOf(v) => Topic::OneOf(v.iter().map(|x| x.tok(k)).collect()),
	}
}
macro_rules! fl {
	($m:ident, $e:expr, $($r:ty),*) => {{
		let e = $e;
		let ks: Vec<T> = e.inputs.iter().filter(|p| p.indexed).map(|p| p.kind.clone()).collect();
		let mut raw: Vec<Topic<Token>> = vec![];
		let got = fl!(@ $m ks raw () $($r),*);
		while raw.len() < 3 {
			raw.push(Topic::Any);
		}
		let topic2 = raw.pop().unwrap();
		let topic1 = raw.pop().unwrap();
		let topic0 = raw.pop().unwrap();
		check!(same_filter(&e, RawTopicFilter { topic0, topic1, topic2 }, &got), "filter");
		check!(same_filter(&e, RawTopicFilter::default(), &wide::events::$m::wildcard_filter()), "unrestricted filter");
	}};
	(@ $m:ident $ks:ident $raw:ident ($($v:ident)*)) => { wide::events::$m::filter($($v),*) };
	(@ $m:ident $ks:ident $raw:ident () $r:ty) => {{
		let a = any::<$r>();
		$raw.push(as_toks(&a, &$ks[0]));
		wide::events::$m::filter(a)
	}};
	(@ $m:ident $ks:ident $raw:ident () $r:ty, $s:ty) => {{
		let (a, b) = (any::<$r>(), any::<$s>());
		$raw.push(as_toks(&a, &$ks[0]));
		$raw.push(as_toks(&b, &$ks[1]));
		wide::events::$m::filter(a, b)
	}};
	(@ $m:ident $ks:ident $raw:ident () $r:ty, $s:ty, $t:ty) => {{
		let (a, b, c) = (any::<$r>(), any::<$s>(), any::<$t>());
		$raw.push(as_toks(&a, &$ks[0]));
		$raw.push(as_toks(&b, &$ks[1]));
		$raw.push(as_toks(&c, &$ks[2]));
		wide::events::$m::filter(a, b, c)
	}};
}

