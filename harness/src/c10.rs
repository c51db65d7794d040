use crate::{gen, rt, spec};
use ethabi::{Constructor, Contract, Event, EventParam, Function, Param, ParamType as T, StateMutability as M, TupleParam};

pub fn param_eq(a: &Param, b: &Param) -> bool {
	rt::same(a.name.as_bytes(), b.name.as_bytes()) && spec::ty_eq(&a.kind, &b.kind) && opt_eq(&a.internal_type, &b.internal_type)
}
pub fn opt_eq(a: &Option<String>, b: &Option<String>) -> bool {
	match (a, b) {
		(None, None) => true,
		(Some(a), Some(b)) => rt::same(a.as_bytes(), b.as_bytes()),
		_ => false,
	}
}
pub fn eparam_eq(a: &EventParam, b: &EventParam) -> bool {
	rt::same(a.name.as_bytes(), b.name.as_bytes()) && spec::ty_eq(&a.kind, &b.kind) && a.indexed == b.indexed
}
pub fn params_eq(a: &[Param], b: &[Param]) -> bool {
	a.len() == b.len() && a.iter().zip(b).all(|(x, y)| param_eq(x, y))
}
pub fn function_eq(a: &Function, b: &Function) -> bool {
	rt::same(a.name.as_bytes(), b.name.as_bytes()) && params_eq(&a.inputs, &b.inputs) && params_eq(&a.outputs, &b.outputs) && a.constant == b.constant && mutability(a.state_mutability) == mutability(b.state_mutability)
}
pub fn mutability(m: M) -> u8 {
	match m {
		M::Pure => 0,
		M::View => 1,
		M::NonPayable => 2,
		M::Payable => 3,
	}
}
pub fn event_eq(a: &Event, b: &Event) -> bool {
	rt::same(a.name.as_bytes(), b.name.as_bytes()) && a.anonymous == b.anonymous && a.inputs.len() == b.inputs.len() && a.inputs.iter().zip(&b.inputs).all(|(x, y)| eparam_eq(x, y))
}
pub fn contract_eq(a: &Contract, b: &Contract) -> bool {
	let c = match (&a.constructor, &b.constructor) {
		(None, None) => true,
		(Some(x), Some(y)) => params_eq(&x.inputs, &y.inputs),
		_ => false,
	};
	c && a.receive == b.receive
		&& a.fallback == b.fallback
		&& a.functions.len() == b.functions.len()
		&& a.functions.iter().all(|(k, v)| matches!(b.functions.get(k), Some(w) if v.len() == w.len() && v.iter().zip(w).all(|(x, y)| function_eq(x, y))))
		&& a.events.len() == b.events.len()
		&& a.events.iter().all(|(k, v)| matches!(b.events.get(k), Some(w) if v.len() == w.len() && v.iter().zip(w).all(|(x, y)| event_eq(x, y))))
}
fn round(c: &Contract) {
	let s = match serde_json::to_string(c) {
		Ok(s) => s,
		Err(_) => {
			check!(false, "the description does not serialize");
			return;
		}
	};
	match Contract::load(s.as_bytes()) {
		Ok(d) => {
			check!(contract_eq(c, &d), "the loaded description differs");
			rt::reach(1);
		}
		Err(_) => check!(false, "the serialized description does not load"),
	}
}
pub fn param(name: &str, kind: T) -> Param {
	Param { name: name.into(), kind, internal_type: None }
}
fn mutab() -> M {
	rt::pick(&[M::Pure, M::View, M::NonPayable, M::Payable])
}

harness! {
/// single params of every type of up to 4 nodes (3 elementary types) and up to 3 nodes (12), as function, event and tuple param, with and without name, internal type, index
fn c10_types() {
	let n = 1 + rt::choose(4);
	let t = if n == 4 { gen::ty(4, &["uint256", "bytes3", "string"], &[2]) } else { gen::ty(n, gen::ALL, &[0, 1, 12]) };
	match rt::choose(3) {
		0 => {
			let p = Param { name: "a".into(), kind: t, internal_type: if rt::choose(2) == 0 { None } else { Some("struct S.T".into()) } };
			let s = serde_json::to_string(&p).unwrap();
			rt::observe(s.as_bytes());
			match serde_json::from_str::<Param>(&s) {
				Ok(q) => check!(param_eq(&p, &q) && p == q, "param differs"),
				Err(_) => check!(false, "param does not load"),
			}
		}
		1 => {
			let p = EventParam { name: "".into(), kind: t, indexed: rt::choose(2) == 1 };
			let s = serde_json::to_string(&p).unwrap();
			rt::observe(s.as_bytes());
			match serde_json::from_str::<EventParam>(&s) {
				Ok(q) => check!(eparam_eq(&p, &q), "event param differs"),
				Err(_) => check!(false, "event param does not load"),
			}
		}
		_ => {
			let p = TupleParam { name: if rt::choose(2) == 0 { None } else { Some("b".into()) }, kind: t, internal_type: if rt::choose(2) == 0 { None } else { Some("".into()) } };
			let s = serde_json::to_string(&p).unwrap();
			match serde_json::from_str::<TupleParam>(&s) {
				Ok(q) => check!(spec::ty_eq(&p.kind, &q.kind) && opt_eq(&p.name, &q.name) && opt_eq(&p.internal_type, &q.internal_type), "tuple param differs"),
				Err(_) => check!(false, "tuple param does not load"),
			}
		}
	}
	rt::reach(1);
}
/// single params of every type of 5 nodes over 2 elementary types
fn c10_types5() {
	let t = gen::ty(5, gen::TWO, &[3]);
	let p = Param { name: "a".into(), kind: t.clone(), internal_type: None };
	let s = serde_json::to_string(&p).unwrap();
	match serde_json::from_str::<Param>(&s) {
		Ok(q) => check!(param_eq(&p, &q), "param differs"),
		Err(_) => check!(false, "param does not load"),
	}
	let p = EventParam { name: "a".into(), kind: t, indexed: true };
	let s = serde_json::to_string(&p).unwrap();
	match serde_json::from_str::<EventParam>(&s) {
		Ok(q) => check!(eparam_eq(&p, &q), "event param differs"),
		Err(_) => check!(false, "event param does not load"),
	}
	rt::reach(1);
}
/// names and internal types of up to 2 symbolic characters (any ASCII, so quotes, backslashes and control characters too), any other single character and several fixed ones, as function, event and tuple param
fn c10_names() {
	let name = match rt::choose(3) {
		0 => gen::text(rt::choose(3)),
		1 => gen::ch(2 + rt::choose(3)),
		_ => rt::pick(&["\u{e9}", "a\u{1f600}b", "\u{2028}", "_from", "\u{fffd}\"", "a(b", "tuple"]).to_string(),
	};
	match rt::choose(4) {
		0 => {
			let p = Param { name, kind: T::Bool, internal_type: None };
			match serde_json::from_str::<Param>(&serde_json::to_string(&p).unwrap()) {
				Ok(q) => check!(param_eq(&p, &q), "param differs"),
				Err(_) => check!(false, "param does not load"),
			}
		}
		1 => {
			let p = Param { name: "x".into(), kind: T::Tuple(vec![T::Bool]), internal_type: Some(name) };
			match serde_json::from_str::<Param>(&serde_json::to_string(&p).unwrap()) {
				Ok(q) => check!(param_eq(&p, &q), "param differs"),
				Err(_) => check!(false, "param does not load"),
			}
		}
		2 => {
			let p = EventParam { name, kind: T::Bool, indexed: true };
			match serde_json::from_str::<EventParam>(&serde_json::to_string(&p).unwrap()) {
				Ok(q) => check!(eparam_eq(&p, &q), "event param differs"),
				Err(_) => check!(false, "event param does not load"),
			}
		}
		_ => {
			let p = TupleParam { name: Some(name.clone()), kind: T::Bool, internal_type: Some(name) };
			match serde_json::from_str::<TupleParam>(&serde_json::to_string(&p).unwrap()) {
				Ok(q) => check!(opt_eq(&p.name, &q.name) && opt_eq(&p.internal_type, &q.internal_type), "tuple param differs"),
				Err(_) => check!(false, "tuple param does not load"),
			}
		}
	}
	rt::reach(1);
}
/// descriptions with up to 2 functions (same or different names) of up to 2 inputs and 1 output, every state mutability and constant flag, and a symbolic param name
fn c10_functions() {
	let mut c = Contract::default();
	let n = rt::choose(3);
	for i in 0..n {
		let name = rt::pick(&["f", "g"]);
		let k = rt::choose(3);
		let ins = (0..k).map(|j| if j == 0 && i == 0 { param(&gen::text(1), T::Array(Box::new(T::Tuple(vec![T::Bool])))) } else { param("", T::Uint(8 * (j + i + 1))) }).collect();
		let outs = if rt::choose(2) == 0 { vec![] } else { vec![param("", spec::ty("(int8,(string)[2])"))] };
		let f = Function { name: name.into(), inputs: ins, outputs: outs, constant: rt::choose(2) == 1, state_mutability: if i == 0 { mutab() } else { M::View } };
		c.functions.entry(name.into()).or_default().push(f);
	}
	round(&c);
}
/// descriptions with a constructor or none, up to 2 events (same or different names; anonymous or not; indexed or not), and every combination of receive and fallback
fn c10_events() {
	let mut c = Contract::default();
	c.constructor = match rt::choose(3) {
		0 => None,
		1 => Some(Constructor { inputs: vec![] }),
		_ => Some(Constructor { inputs: vec![param("a", spec::ty("(bytes,address[])[]")), param("a", T::Bool)] }),
	};
	let n = rt::choose(3);
	for i in 0..n {
		let name = rt::pick(&["E", "F"]);
		let k = rt::choose(3);
		let inputs = (0..k).map(|j| EventParam { name: if j == 0 { String::new() } else { "x".into() }, kind: if j == 0 { spec::ty("(bool,int8)[2]") } else { T::Uint(8 * (i + 1)) }, indexed: rt::choose(2) == 1 }).collect();
		c.events.entry(name.into()).or_default().push(Event { name: name.into(), inputs, anonymous: rt::choose(2) == 1 });
	}
	c.receive = rt::choose(2) == 1;
	c.fallback = rt::choose(2) == 1;
	round(&c);
}
/// whole descriptions: 0..=4 overloads of one function and of one event, another of each, and everything else present
fn c10_whole() {
	rt::hash_seed(rt::choose(4));
	let mut c = Contract { constructor: Some(Constructor { inputs: vec![param("o", T::Address)] }), receive: true, fallback: true, ..Contract::default() };
	let (nf, ne) = (rt::choose(5), rt::choose(5));
	for i in 0..nf {
		c.functions.entry("t".into()).or_default().push(Function { name: "t".into(), inputs: vec![param("a", T::FixedBytes(i + 1))], outputs: vec![param("r", T::FixedArray(Box::new(T::Bool), i))], constant: i % 2 == 0, state_mutability: [M::Pure, M::Payable, M::View, M::NonPayable][i % 4] });
	}
	for i in 0..ne {
		c.events.entry("t".into()).or_default().push(Event { name: "t".into(), inputs: vec![EventParam { name: "v".into(), kind: T::Uint(8 * i + 8), indexed: i % 2 == 1 }], anonymous: i > 1 });
	}
	c.functions.entry("u\u{e9}".into()).or_default().push(gen::function("u\u{e9}", &[T::Tuple(vec![T::Tuple(vec![T::String])])], &[T::Int(256)]));
	c.events.entry("".into()).or_default().push(Event { name: "".into(), inputs: vec![], anonymous: true });
	round(&c);
}
/// descriptions with 0 to 257 functions, events, overloads or params (sizes as in gen::many), or names of as many characters, or as deep types up to 34; single params of such types
fn c10_many() {
	let n = gen::many();
	let mut c = Contract { constructor: None, ..Contract::default() };
	let mut name = "n".repeat(n);
	name.push_str(&gen::text(1));
	rt::assume(name.as_bytes()[n] != b'(');
	match rt::choose(7) {
		0 => {
			for i in 0..n {
				c.functions.entry("t".into()).or_default().push(gen::function("t", &[T::FixedBytes(i + 1)], &[T::Bool]));
			}
		}
		1 => {
			for i in 0..n {
				c.events.entry("t".into()).or_default().push(Event { name: "t".into(), inputs: vec![EventParam { name: "v".into(), kind: T::Uint(i), indexed: i % 2 == 1 }], anonymous: i % 3 == 1 });
			}
		}
		2 => {
			for i in 0..n {
				let k = spec::dec(i);
				c.functions.entry(k.clone()).or_default().push(gen::function(&k, &[], &[]));
				c.events.entry(k.clone()).or_default().push(Event { name: k, inputs: vec![], anonymous: false });
			}
		}
		3 => {
			let ts: Vec<T> = (0..n).map(|i| T::FixedArray(Box::new(T::Tuple(vec![T::Bool])), i)).collect();
			c.constructor = Some(Constructor { inputs: gen::params(&ts) });
			c.functions.entry("t".into()).or_default().push(gen::function("t", &ts, &ts));
		}
		4 => {
			c.constructor = Some(Constructor { inputs: vec![param("x", T::Tuple((0..n).map(|i| T::Int(i)).collect()))] });
			c.events.entry("e".into()).or_default().push(Event { name: "e".into(), inputs: (0..n).map(|i| EventParam { name: spec::dec(i), kind: T::Array(Box::new(T::Tuple(vec![T::String]))), indexed: i % 2 == 0 }).collect(), anonymous: false });
		}
		5 => {
			c.functions.entry(name.clone()).or_default().push(Function { name: name.clone(), inputs: vec![Param { name: name.clone(), kind: T::Bool, internal_type: Some(name.clone()) }], outputs: vec![], constant: false, state_mutability: M::View });
			c.events.entry(name.clone()).or_default().push(Event { name: name.clone(), inputs: vec![EventParam { name, kind: T::Bool, indexed: true }], anonymous: false });
		}
		_ => {
			rt::assume(n <= 34);
			let mut t = T::Bytes;
			let k = rt::choose(3);
			for i in 0..n {
				t = match (k, i % 3) {
					(0, _) | (2, 0) => T::Tuple(vec![t, T::Bool]),
					(1, _) | (2, 1) => T::FixedArray(Box::new(t), i),
					_ => T::Array(Box::new(t)),
				};
			}
			c.constructor = Some(Constructor { inputs: vec![param("x", t.clone())] });
			c.events.entry("e".into()).or_default().push(Event { name: "e".into(), inputs: vec![EventParam { name: "x".into(), kind: t, indexed: true }], anonymous: false });
		}
	}
	round(&c);
}
/// contracts whose function, constructor and event have 1..=10, 17 or 33 parameters of one type but one of another anywhere, or a tuple of these
fn c10_odd() {
	let ts = gen::odd();
	rt::assume(ts.len() <= 10 || ts.len() == 17 || ts.len() == 33);
	let ts = if rt::choose(2) == 0 { ts } else { vec![T::Array(Box::new(T::Tuple(ts)))] };
	let mut c = Contract::default();
	match rt::choose(2) {
		0 => {
			c.constructor = Some(Constructor { inputs: gen::params(&ts) });
			c.functions.insert("f".into(), vec![gen::function("f", &ts, &ts)]);
		}
		_ => {
			let ix = rt::choose(3);
			let inputs = ts.iter().map(|t| EventParam { name: String::new(), kind: t.clone(), indexed: [false, *t == ts[0], *t != ts[0]][ix] }).collect();
			c.events.insert("e".into(), vec![Event { name: "e".into(), inputs, anonymous: true }]);
		}
	}
	round(&c);
}
}
