use crate::{gen, rt, spec};
use ethabi::{ethereum_types::H256, Event, EventParam, ParamType as T, RawLog, Token};

pub fn sig(e: &Event) -> H256 {
	let ts: Vec<T> = e.inputs.iter().map(|p| p.kind.clone()).collect();
	H256(rt::keccak(spec::signature(&e.name, &ts).as_bytes()))
}
/// parse the log that emitting the event with these values gives; hashed indexed values get an arbitrary topic
fn emitted(e: &Event, v: &[Token]) {
	let mut topics = vec![];
	if !e.anonymous {
		topics.push(sig(e));
	}
	let mut data = vec![];
	let mut want = vec![];
	for (p, x) in e.inputs.iter().zip(v) {
		if p.indexed {
			let w = if spec::hashed(&p.kind) { rt::arr::<32>() } else { spec::topic(x, &p.kind) };
			topics.push(H256(w));
			want.push(if spec::hashed(&p.kind) { Token::FixedBytes(w.to_vec()) } else { x.clone() });
		} else {
			data.push(x.clone());
			want.push(x.clone());
		}
	}
	let data = spec::enc(&data);
	match e.parse_log(RawLog { topics, data }) {
		Ok(l) => {
			rt::reach(1);
			check!(l.params.len() == want.len(), "one value per parameter");
			let mut ok = true;
			for (p, q) in l.params.iter().zip(&e.inputs) {
				ok &= rt::same(p.name.as_bytes(), q.name.as_bytes());
			}
			check!(ok, "names in declaration order");
			let got: Vec<Token> = l.params.iter().map(|p| p.value.clone()).collect();
			check!(spec::toks_eq(&got, &want), "every parameter has its own value");
		}
		Err(_) => check!(false, "a log of the event is rejected"),
	}
}
fn mask(ts: &[T]) -> Vec<bool> {
	ts.iter().map(|_| rt::choose(2) == 1).collect()
}
fn event(ts: &[T], ix: &[bool], names: usize) -> Event {
	let inputs = ts
		.iter()
		.zip(ix)
		.enumerate()
		.map(|(i, (t, x))| EventParam {
			name: match names {
				0 => spec::cat(&["p", &spec::dec(i)]),
				1 => String::new(),
				_ => ["a", "a", "b", "a"][i % 4].into(),
			},
			kind: t.clone(),
			indexed: *x,
		})
		.collect();
	Event { name: "Ev".into(), inputs, anonymous: rt::choose(2) == 1 }
}
/// value types fit one topic
pub const LEAVES: &[&str] = &["uint256", "address", "bool", "int8", "bytes1", "bytes32", "string", "bytes", "bytes31"];

harness! {
/// events with every list of up to 3 type nodes over 9 elementary types, every choice of indexed parameters, anonymous or not, named, unnamed or sharing names; all contents symbolic
fn c12_small() {
	let n = rt::choose(4);
	let ts = gen::list(n, LEAVES, &[2]);
	let ix = mask(&ts);
	let names = rt::choose(3);
	let e = event(&ts, &ix, names);
	let v = gen::shape(&[&[0], &[33, 1]], &[&[0], &[2, 1]]).values(&ts);
	emitted(&e, &v);
}
/// events with every list of 4 type nodes over 3 elementary types
fn c12_four() {
	let ts = gen::list(4, &["uint256", "bytes5", "string"], &[2]);
	let ix = mask(&ts);
	let names = rt::choose(3);
	let e = event(&ts, &ix, names);
	let v = gen::shape(&[&[33, 1]], &[&[2, 1]]).values(&ts);
	emitted(&e, &v);
}
/// events with every list of 5 type nodes over 2 elementary types
fn c12_five() {
	let ts = gen::list(5, gen::TWO, &[2]);
	let ix = mask(&ts);
	let e = event(&ts, &ix, 2);
	let v = gen::shape(&[&[33, 1]], &[&[2, 1]]).values(&ts);
	emitted(&e, &v);
}
/// events with 1..=24 parameters indexed in every pattern of period up to 4, names of up to 2 symbolic characters each for the first two
fn c12_many() {
	let n = 1 + rt::choose(24);
	let pat = rt::choose(16);
	let ix: Vec<bool> = (0..n).map(|i| pat >> (i % 4) & 1 == 1).collect();
	let ts: Vec<T> = (0..n).map(|i| [T::Uint(256), T::String, T::Bool, T::FixedBytes(7), T::Array(Box::new(T::Address))][(i * 2 + pat) % 5].clone()).collect();
	let mut e = event(&ts, &ix, 2);
	e.inputs[0].name = gen::text(rt::choose(3));
	if n > 1 {
		e.inputs[1].name = gen::text(rt::choose(2));
	}
	let v = gen::shape(&[&[5]], &[&[2]]).values(&ts);
	emitted(&e, &v);
}
/// byte strings and arrays of 0 to 257 bytes or elements (sizes as in gen::many) in the data, event names and parameter names of as many characters
fn c12_sizes() {
	let n = gen::many();
	let t = spec::ty(rt::pick(&["bytes", "string", "uint8[]", "string[]", "(bool,bytes)[]"]));
	let m = if n > 40 { 1 } else { n % 3 };
	let v = vec![Token::Bool(true), gen::sized(&t, if matches!(t, T::Bytes | T::String) { n } else { m }, n), gen::sized(&T::Address, 0, 0)];
	let mut e = event(&[T::Bool, t, T::Address], &[true, false, rt::choose(2) == 1], 0);
	e.name = "n".repeat(n);
	e.inputs[1].name = "m".repeat(n);
	emitted(&e, &v);
}
/// events with 1..=10, 17 or 33 parameters of one type but one of another anywhere; that one, all others, all or none of them indexed
fn c12_odd() {
	let ts = gen::odd();
	rt::assume(ts.len() <= 10 || ts.len() == 17 || ts.len() == 33);
	let k = rt::choose(4);
	let ix: Vec<bool> = ts.iter().map(|t| [false, true, *t == ts[0], *t != ts[0]][k]).collect();
	let e = event(&ts, &ix, rt::choose(3));
	let v: Vec<Token> = ts.iter().map(|t| gen::sized(t, 3, 1)).collect();
	emitted(&e, &v);
}
/// anonymous events with numbers of every declared width (any 64-bit number), indexed or not, alone and in arrays and tuples; every value
fn c12_widths() {
	let ts = gen::wides();
	let ix = mask(&ts);
	let mut e = event(&ts, &ix, 0);
	rt::assume(e.anonymous);
	e.anonymous = true;
	let v: Vec<Token> = ts.iter().map(|t| gen::sized(t, 3, 2)).collect();
	emitted(&e, &v);
}
/// events with an indexed and a data parameter of the same number type, of widths 0, 1, 7 to 9, 16, 63 to 65, 128, 248, 255 to 257, 264, 512; fixed bytes of every size 1..=32 indexed, to 66 in the data
fn c12_types() {
	let (t, d) = match rt::choose(3) {
		0 => {
			let k = rt::pick(&[0usize, 1, 7, 8, 9, 16, 63, 64, 65, 128, 248, 255, 256, 257, 264, 512]);
			(T::Int(k), T::Uint(k))
		}
		1 => {
			let k = rt::pick(&[0usize, 1, 7, 8, 9, 16, 63, 64, 65, 128, 248, 255, 256, 257, 264, 512]);
			(T::Uint(k), T::Int(k))
		}
		_ => {
			let k = 1 + rt::choose(66);
			(T::FixedBytes(k.min(32)), T::FixedBytes(k))
		}
	};
	let ts = vec![d.clone(), t.clone(), T::Array(Box::new(d))];
	let e = event(&ts, &[false, true, rt::choose(2) == 1], 0);
	let v: Vec<Token> = ts.iter().map(|t| gen::sized(t, 3, 2)).collect();
	emitted(&e, &v);
}
/// one large value (gen::huge: byte strings of 300 to 100000 bytes, arrays, fixed arrays, tuples and lists of 300 to 4097 values) in the data, alone or between others
fn c12_huge() {
	let (ts, v) = gen::huge();
	let ix: Vec<bool> = ts.iter().map(|t| *t == T::Bool).collect();
	let e = event(&ts, &ix, 0);
	emitted(&e, &v);
}
}
