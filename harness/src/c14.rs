use crate::c12::sig;
use crate::{gen, rt, spec};
use ethabi::{ethereum_types::H256, Event, EventParam, ParamType as T, RawTopicFilter, Token, Topic};

fn event(ts: &[T], ix: &[bool], anonymous: bool) -> Event {
	Event { name: "Ev".into(), inputs: ts.iter().zip(ix).map(|(t, x)| EventParam { name: String::new(), kind: t.clone(), indexed: *x }).collect(), anonymous }
}
/// what one requested position must become; None: an error
fn want(t: &Topic<Token>, k: Option<&T>) -> Option<Topic<[u8; 32]>> {
	let one = |x: &Token, k: &T| if spec::conforms(x, k) { Some(spec::topic(x, k)) } else { None };
	Some(match (t, k) {
		(Topic::Any, _) => Topic::Any,
		(_, None) => return None,
		(Topic::This(x), Some(k)) => Topic::This(one(x, k)?),
		(Topic::OneOf(v), Some(k)) => {
			let mut w = vec![];
			for x in v {
				w.push(one(x, k)?);
			}
			Topic::OneOf(w)
		}
	})
}
fn topic_eq(a: &Topic<H256>, b: &Topic<[u8; 32]>) -> bool {
	match (a, b) {
		(Topic::Any, Topic::Any) => true,
		(Topic::This(x), Topic::This(y)) => rt::same(&x.0, y),
		(Topic::OneOf(x), Topic::OneOf(y)) => {
			let (mut p, mut q) = (vec![], vec![]);
			for h in x {
				p.extend_from_slice(&h.0);
			}
			for h in y {
				q.extend_from_slice(h);
			}
			x.len() == y.len() && rt::same(&p, &q)
		}
		_ => false,
	}
}
fn exact(e: &Event, raw: [Topic<Token>; 3]) {
	let kinds: Vec<&T> = e.inputs.iter().filter(|p| p.indexed).map(|p| &p.kind).collect();
	let mut w = vec![];
	let mut bad = false;
	for (i, t) in raw.iter().enumerate() {
		match want(t, kinds.get(i).copied()) {
			Some(x) => w.push(x),
			None => bad = true,
		}
	}
	let s = sig(e);
	let anonymous = e.anonymous;
	let [topic0, topic1, topic2] = raw;
	match e.filter(RawTopicFilter { topic0, topic1, topic2 }) {
		Ok(f) => {
			rt::reach(1);
			check!(!bad, "a filter for values the event cannot have");
			if bad {
				return;
			}
			if anonymous {
				check!(topic_eq(&f.topic0, &w[0]) && topic_eq(&f.topic1, &w[1]) && topic_eq(&f.topic2, &w[2]) && f.topic3.is_any(), "topics of an anonymous event's filter");
			} else {
				check!(matches!(&f.topic0, Topic::This(h) if rt::same(&h.0, &s.0)), "signature hash first");
				check!(topic_eq(&f.topic1, &w[0]) && topic_eq(&f.topic2, &w[1]) && topic_eq(&f.topic3, &w[2]), "topics are not the requested values");
			}
		}
		Err(_) => {
			rt::reach(0);
			check!(bad, "a filter for possible values is rejected")
		}
	}
}

harness! {
/// a filter on one indexed parameter of every type of up to 3 nodes over 9 elementary types and up to 4 over 3, all contents symbolic; single value, no value, 0 to 2 alternatives; anonymous or not
fn c14_types() {
	let n = 1 + rt::choose(4);
	let t = if n == 4 { gen::ty(4, &["uint256", "bytes5", "string"], &[2]) } else { gen::ty(n, crate::c12::LEAVES, &[0, 1, 3]) };
	let e = event(std::slice::from_ref(&t), &[true], rt::choose(2) == 1);
	let mut sh = gen::shape(&[&[0], &[1], &[32], &[33, 5]], &[&[0], &[1], &[2, 1]]);
	let topic = match rt::choose(5) {
		0 => Topic::Any,
		1 => Topic::This(sh.value(&t)),
		i => Topic::OneOf((2..i).map(|_| sh.value(&t)).collect()),
	};
	exact(&e, [topic, Topic::Any, Topic::Any]);
}
/// a filter on a parameter of every type of 5 nodes over 2 elementary types
fn c14_five() {
	let t = gen::ty(5, gen::TWO, &[2]);
	let e = event(std::slice::from_ref(&t), &[true], false);
	let v = gen::shape(&[&[33, 5]], &[&[1], &[2, 1, 0]]).value(&t);
	exact(&e, [Topic::This(v), Topic::Any, Topic::Any]);
}
/// values with any one node changed in kind, length or order, or not: types of up to 3 nodes
fn c14_changed() {
	let n = 1 + rt::choose(3);
	let t = gen::ty(n, crate::c12::LEAVES, &[2]);
	let e = event(std::slice::from_ref(&t), &[true], rt::choose(2) == 1);
	let mut v = vec![gen::shape(&[&[1], &[33]], &[&[2, 1]]).value(&t)];
	let k = rt::choose(gen::nodes(&v) + 1);
	if k > 0 {
		gen::change(&mut v, &mut (k - 1));
	}
	let x = v.pop().unwrap();
	let topic = if rt::choose(2) == 0 { Topic::This(x) } else { Topic::OneOf(vec![gen::shape(&[&[2]], &[&[1]]).value(&t), x]) };
	exact(&e, [topic, Topic::Any, Topic::Any]);
}
/// 0 to 4 parameters, every choice of indexed ones, and at each of the three positions nothing, a value of the parameter's type, a value of another type, or alternatives; anonymous or not
fn c14_positions() {
	let n = rt::choose(5);
	let kinds = [T::Uint(256), T::String, T::Bool, T::Address];
	let ix: Vec<bool> = (0..n).map(|_| rt::choose(2) == 1).collect();
	let ts = kinds[..n].to_vec();
	let e = event(&ts, &ix, rt::choose(2) == 1);
	let own: Vec<T> = ts.iter().zip(&ix).filter(|x| *x.1).map(|x| x.0.clone()).collect();
	let mut raw = vec![];
	for i in 0..3 {
		let t = own.get(i).cloned().unwrap_or(T::Bool);
		let mut sh = gen::shape(&[&[3]], &[&[1]]);
		raw.push(match rt::choose(5) {
			0 => Topic::Any,
			1 => Topic::This(sh.value(&t)),
			2 => Topic::OneOf(vec![sh.value(&t), sh.value(&t), sh.value(&t)]),
			3 => Topic::OneOf(vec![]),
			_ => Topic::This(Token::FixedBytes(rt::bytes(2))),
		});
	}
	let c = raw.pop().unwrap();
	let b = raw.pop().unwrap();
	let a = raw.pop().unwrap();
	exact(&e, [a, b, c]);
}
/// byte strings and texts of every length 0..=70 and of 127..=137 bytes (around the hash block), alone and inside arrays and tuples
fn c14_lengths() {
	let n = if rt::choose(2) == 0 { rt::choose(71) } else { 127 + rt::choose(11) };
	let t = spec::ty(rt::pick(&["string", "bytes", "bytes[2]", "(bool,string)", "string[]", "(bytes[],uint8)[1]"]));
	let e = event(std::slice::from_ref(&t), &[true], false);
	exact(&e, [Topic::This(gen::sized(&t, n, 1)), Topic::Any, Topic::Any]);
}
/// the topics of a filter for some values are those of the log emitted with these values: parsing that log gives the values back
fn c14_match() {
	let n = 1 + rt::choose(3);
	let ts = gen::list(n, &["uint256", "bool", "bytes5", "string"], &[2]);
	let ix: Vec<bool> = ts.iter().map(|_| true).collect();
	rt::assume(ts.len() <= 3);
	let e = event(&ts, &ix, rt::choose(2) == 1);
	let v = gen::shape(&[&[3]], &[&[2]]).values(&ts);
	let at = |i: usize| v.get(i).cloned().map(Topic::This).unwrap_or(Topic::Any);
	let f = match e.filter(RawTopicFilter { topic0: at(0), topic1: at(1), topic2: at(2) }) {
		Ok(f) => f,
		Err(_) => {
			check!(false, "filter rejected");
			return;
		}
	};
	let mut topics = vec![];
	for t in vec![f.topic0, f.topic1, f.topic2, f.topic3] {
		if let Topic::This(h) = t {
			topics.push(h);
		}
	}
	match e.parse_log(ethabi::RawLog { topics: topics.clone(), data: vec![] }) {
		Ok(l) => {
			let off = if e.anonymous { 0 } else { 1 };
			let w: Vec<Token> = v.iter().zip(&ts).enumerate().map(|(i, (x, t))| if spec::hashed(t) { Token::FixedBytes(topics[i + off].0.to_vec()) } else { x.clone() }).collect();
			let g: Vec<Token> = l.params.into_iter().map(|p| p.value).collect();
			check!(spec::toks_eq(&g, &w), "the filter's topics denote other values");
			rt::reach(1);
		}
		Err(_) => check!(false, "the filter's topics do not parse"),
	}
}
/// 0 to 257 alternatives (sizes as in gen::many), all right or one of another type at the start, the end or in the middle; values with as many bytes or elements
fn c14_many() {
	let n = gen::many();
	if rt::choose(2) == 0 {
		let t = spec::ty(rt::pick(&["uint256", "string"]));
		let e = event(&[t.clone(), T::Bool], &[true, true], rt::choose(2) == 1);
		let mut v: Vec<Token> = (0..n).map(|_| gen::sized(&t, 2, 1)).collect();
		if n > 0 && rt::choose(2) == 1 {
			v[rt::pick(&[0, n / 2, n - 1])] = Token::Bool(true);
		}
		exact(&e, [Topic::OneOf(v), Topic::This(Token::Bool(true)), Topic::Any]);
	} else {
		let t = spec::ty(rt::pick(&["bytes", "bool[]", "bytes3[]", "(bool,string)[]"]));
		let e = event(std::slice::from_ref(&t), &[true], false);
		exact(&e, [Topic::This(gen::sized(&t, if matches!(t, T::Bytes) { n } else { 3 }, n)), Topic::Any, Topic::Any]);
	}
}
/// numbers of widths 0, 1, 7 to 9, 16, 63 to 65, 128, 248, 255 to 257, 264, 512 and fixed bytes of every size 1..=32, alone, in arrays and in tuples: every value, and a value of the other number kind
fn c14_widths() {
	let t = if rt::choose(3) == 0 {
		T::FixedBytes(1 + rt::choose(32))
	} else {
		let k = rt::pick(&[0usize, 1, 7, 8, 9, 16, 63, 64, 65, 128, 248, 255, 256, 257, 264, 512]);
		if rt::choose(2) == 0 {
			T::Int(k)
		} else {
			T::Uint(k)
		}
	};
	let t = match rt::choose(4) {
		0 => t,
		1 => T::Array(Box::new(t)),
		2 => T::FixedArray(Box::new(t), 2),
		_ => T::Tuple(vec![t, T::String]),
	};
	let e = event(std::slice::from_ref(&t), &[true], rt::choose(2) == 1);
	let mut v = vec![gen::sized(&t, 3, 2)];
	if rt::choose(2) == 1 {
		let last = gen::nodes(&v) - 1;
		gen::change(&mut v, &mut rt::pick(&[0, last]).clone());
	}
	let x = v.pop().unwrap();
	let topic = if rt::choose(2) == 0 { Topic::This(x) } else { Topic::OneOf(vec![gen::sized(&t, 3, 2), x]) };
	exact(&e, [topic, Topic::Any, Topic::Any]);
}
/// the hash of one large value (gen::huge: byte strings of 300 to 100000 bytes, arrays, fixed arrays and tuples of 300 to 4097 values); and 300 to 4097 alternatives
fn c14_huge() {
	if rt::choose(2) == 0 {
		let (ts, v) = gen::huge();
		let i = ts.len() / 2;
		if ts.len() > 3 || matches!(ts[i], T::FixedBytes(_)) {
			rt::done();
		}
		let e = event(&ts[i..i + 1], &[true], rt::choose(2) == 1);
		exact(&e, [Topic::This(v[i].clone()), Topic::Any, Topic::Any]);
	} else {
		let n = gen::hundreds();
		let e = event(&[T::Uint(256)], &[true], false);
		exact(&e, [Topic::OneOf((0..n).map(|i| Token::Uint((i as u64).into())).collect()), Topic::Any, Topic::Any]);
	}
}
}
