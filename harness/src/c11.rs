use crate::c10::{eparam_eq, event_eq, function_eq, mutability, param, param_eq};
use crate::{gen, rt, spec};
use ethabi::{Contract, Event, EventParam, Function, Param, ParamType as T, StateMutability as M, TupleParam};

/// a JSON object with its members in any order
fn object(mut m: Vec<(&str, String)>) -> String {
	let mut s = String::from("{");
	let mut first = true;
	while !m.is_empty() {
		let i = rt::choose(m.len());
		let (k, v) = m.remove(i);
		if !first {
			s.push(',');
		}
		first = false;
		s.push('"');
		s.push_str(k);
		s.push_str("\":");
		s.push_str(&v);
	}
	s.push('}');
	s
}
/// a JSON object with its members in the given order
fn fixed(m: &[(&str, &str)]) -> String {
	let mut s = String::from("{");
	for (i, (k, v)) in m.iter().enumerate() {
		if i > 0 {
			s.push_str(", ");
		}
		s.push_str(&spec::cat(&["\"", k, "\" : ", v]));
	}
	s.push('}');
	s
}
fn q(s: &str) -> String {
	spec::cat(&["\"", s, "\""])
}
/// a value of any JSON kind
fn junk() -> String {
	rt::pick(&["null", "true", "-1.5e3", "\"x\"", "[]", "[1,[{}]]", "{}", "{\"name\":{\"type\":[\"z\"]}}"]).into()
}
/// symbolic characters that stand for themselves in a JSON string
fn plain(n: usize) -> String {
	let t = gen::text(n);
	for c in t.as_bytes() {
		rt::assume(*c >= 32 && *c != b'"' && *c != b'\\');
	}
	t
}
/// what the name is kept as
fn cut(s: &str) -> &str {
	let b = s.as_bytes();
	let mut i = 0;
	while i < b.len() && b[i] != b'(' {
		i += 1;
	}
	unsafe { std::str::from_utf8_unchecked(&b[..i]) }
}
/// components of a tuple as JSON, and their types
const COMPONENTS: &str = "[{\"name\":\"c\",\"type\":\"int8\"},{\"type\":\"tuple[]\",\"components\":[{\"components\":[],\"type\":\"tuple\"}],\"internalType\":\"struct X\"}]";
fn components() -> Vec<T> {
	vec![T::Int(8), T::Array(Box::new(T::Tuple(vec![T::Tuple(vec![])])))]
}

harness! {
/// function params: name, type, internalType, components and an unknown key of any JSON kind in every order; internalType and the unknown key present or absent; names of up to 1 symbolic character
fn c11_param() {
	let name = plain(rt::choose(2));
	let (kind, t) = match rt::choose(3) {
		0 => ("bool[]", T::Array(Box::new(T::Bool))),
		1 => ("tuple", T::Tuple(components())),
		_ => ("tuple[2][]", T::Array(Box::new(T::FixedArray(Box::new(T::Tuple(components())), 2)))),
	};
	let mut m = vec![("name", q(&name)), ("type", q(kind))];
	if kind.starts_with("tuple") {
		m.push(("components", COMPONENTS.into()));
	}
	let it = rt::choose(2) == 1;
	if it {
		m.push(("internalType", "\"enum E\"".into()));
	}
	match rt::choose(3) {
		0 => {}
		1 => m.push(("indexed", junk())),
		_ => m.push(("", junk())),
	}
	match serde_json::from_str::<Param>(&object(m)) {
		Ok(p) => check!(param_eq(&p, &Param { name, kind: t, internal_type: if it { Some("enum E".into()) } else { None } }), "param differs from the document"),
		Err(_) => check!(false, "param is not loaded"),
	}
	rt::reach(1);
}
/// event params: name, type, indexed, components and an unknown key in every order; indexed absent, true or false
fn c11_eparam() {
	let name = plain(rt::choose(2));
	let (kind, t) = match rt::choose(3) {
		0 => ("uint", T::Uint(256)),
		1 => ("tuple", T::Tuple(components())),
		_ => ("tuple[][3]", T::FixedArray(Box::new(T::Array(Box::new(T::Tuple(components())))), 3)),
	};
	let mut m = vec![("name", q(&name)), ("type", q(kind))];
	if kind.starts_with("tuple") {
		m.push(("components", COMPONENTS.into()));
	}
	let ix = rt::choose(3);
	if ix > 0 {
		m.push(("indexed", if ix == 2 { "true".into() } else { "false".into() }));
	}
	match rt::choose(3) {
		0 => {}
		1 => m.push(("internalType", junk())),
		_ => m.push(("Name", junk())),
	}
	match serde_json::from_str::<EventParam>(&object(m)) {
		Ok(p) => check!(eparam_eq(&p, &EventParam { name, kind: t, indexed: ix == 2 }), "event param differs from the document"),
		Err(_) => check!(false, "event param is not loaded"),
	}
	rt::reach(1);
}
/// tuple params: every member order, name and internalType present or absent
fn c11_tparam() {
	let name = plain(rt::choose(2));
	let (kind, t) = match rt::choose(2) {
		0 => ("bytes32", T::FixedBytes(32)),
		_ => ("tuple[]", T::Array(Box::new(T::Tuple(components())))),
	};
	let mut m = vec![("type", q(kind))];
	if kind.starts_with("tuple") {
		m.push(("components", COMPONENTS.into()));
	}
	let (hn, it) = (rt::choose(2) == 1, rt::choose(2) == 1);
	if hn {
		m.push(("name", q(&name)));
	}
	if it {
		m.push(("internalType", "\"i\"".into()));
	}
	if rt::choose(2) == 1 {
		m.push(("types", junk()));
	}
	match serde_json::from_str::<TupleParam>(&object(m)) {
		Ok(p) => {
			check!(spec::ty_eq(&p.kind, &t), "type of the tuple param");
			check!(crate::c10::opt_eq(&p.name, &if hn { Some(name) } else { None }), "name of the tuple param");
			check!(crate::c10::opt_eq(&p.internal_type, &if it { Some("i".into()) } else { None }), "internal type of the tuple param");
		}
		Err(_) => check!(false, "tuple param is not loaded"),
	}
	rt::reach(1);
}
/// an unknown key of up to 10 symbolic characters (never one of the known keys) is ignored in function, event and tuple params
fn c11_unknown() {
	let key = plain(rt::choose(13));
	for k in ["name", "type", "internalType", "components", "indexed"] {
		if key.len() == k.len() {
			rt::assume(!rt::same(key.as_bytes(), k.as_bytes()));
		}
	}
	let s = spec::cat(&["{\"name\":\"n\",", &q(&key), ":", &junk(), ",\"type\":\"bool\"}"]);
	match rt::choose(3) {
		0 => check!(matches!(serde_json::from_str::<Param>(&s), Ok(p) if param_eq(&p, &param("n", T::Bool))), "unknown key is not ignored"),
		1 => check!(matches!(serde_json::from_str::<EventParam>(&s), Ok(p) if eparam_eq(&p, &EventParam { name: "n".into(), kind: T::Bool, indexed: false })), "unknown key is not ignored"),
		_ => check!(matches!(serde_json::from_str::<TupleParam>(&s), Ok(p) if p.name.as_deref() == Some("n") && spec::ty_eq(&p.kind, &T::Bool)), "unknown key is not ignored"),
	}
	rt::reach(1);
}
/// params with any one known member given twice, or a required one missing, or with a type that is none, are rejected; every other combination of up to 2 extra members is accepted
fn c11_rejects() {
	let all: &[(&str, &str)] = &[("name", "\"a\""), ("type", "\"tuple\""), ("components", "[{\"type\":\"bool\"}]"), ("internalType", "\"s\""), ("indexed", "true"), ("other", "1")];
	let which = rt::choose(3);
	// each member 0, 1 or 2 times (indexed and internalType at most once where they are unknown keys)
	let mut m = vec![];
	let mut count = [0usize; 6];
	for (i, x) in all.iter().enumerate() {
		count[i] = rt::choose(if i < 3 { 3 } else { 2 });
		if i == 3 && which != 1 || i == 4 && which == 1 {
			count[i] += rt::choose(2);
		}
		for _ in 0..count[i] {
			m.push(*x);
		}
	}
	let s = fixed(&m);
	let need_name = which != 2;
	let ok = count[0] <= 1 && (count[0] == 1 || !need_name) && count[1] == 1 && count[2] == 1 && (which == 1 || count[3] <= 1) && (which != 1 || count[4] <= 1);
	let got = match which {
		0 => serde_json::from_str::<Param>(&s).is_ok(),
		1 => serde_json::from_str::<EventParam>(&s).is_ok(),
		_ => serde_json::from_str::<TupleParam>(&s).is_ok(),
	};
	rt::reach(ok as u64);
	check!(got == ok, "accepted exactly when nothing is missing or given twice");
}
/// functions: all members in every order, stateMutability and constant present or absent, the name cut at the first parenthesis
fn c11_function() {
	let name = rt::pick(&["", "f", "ab(c(d)", "(("]);
	let mut m = vec![("name", q(name)), ("inputs", "[{\"type\":\"bool\",\"name\":\"x\"}]".to_string()), ("outputs", "[]".to_string())];
	let sm = rt::choose(5);
	let c = rt::choose(3);
	if sm > 0 {
		m.push(("stateMutability", q(["pure", "view", "nonpayable", "payable"][sm - 1])));
	}
	if c > 0 {
		m.push(("constant", if c == 2 { "true".into() } else { "false".into() }));
	}
	if rt::choose(2) == 1 {
		m.push(("payable", rt::pick(&["true", "null", "[{}]"]).into()));
	}
	let want = Function { name: cut(name).to_string(), inputs: vec![param("x", T::Bool)], outputs: vec![], constant: c == 2, state_mutability: [M::NonPayable, M::Pure, M::View, M::NonPayable, M::Payable][sm] };
	match serde_json::from_str::<Function>(&object(m)) {
		Ok(f) => check!(function_eq(&f, &want), "function differs from the document"),
		Err(_) => check!(false, "function is not loaded"),
	}
	rt::reach(1);
}
/// function and event names of up to 6 symbolic characters are kept up to the first parenthesis
fn c11_names() {
	let name = plain(rt::choose(7));
	if rt::choose(2) == 0 {
		let s = spec::cat(&["{\"name\":\"", &name, "\",\"inputs\":[],\"outputs\":[]}"]);
		match serde_json::from_str::<Function>(&s) {
			Ok(f) => check!(function_eq(&f, &Function { name: cut(&name).to_string(), inputs: vec![], outputs: vec![], constant: false, state_mutability: M::NonPayable }), "function differs from the document"),
			Err(_) => check!(false, "function is not loaded"),
		}
	} else {
		let s = spec::cat(&["{\"name\":\"", &name, "\",\"inputs\":[],\"anonymous\":false}"]);
		match serde_json::from_str::<Event>(&s) {
			Ok(f) => check!(event_eq(&f, &Event { name: cut(&name).to_string(), inputs: vec![], anonymous: false }), "event differs from the document"),
			Err(_) => check!(false, "event is not loaded"),
		}
	}
	rt::reach(1);
}
/// events: all members in every order, the name cut at the first parenthesis
fn c11_event() {
	let name = rt::pick(&["", "f", "ab(c(d)", "(("]);
	let anon = rt::choose(2) == 1;
	let mut m = vec![("name", q(name)), ("inputs", "[{\"indexed\":true,\"type\":\"bool\",\"name\":\"x\"},{\"name\":\"\",\"type\":\"int\"}]".to_string()), ("anonymous", if anon { "true".into() } else { "false".into() })];
	if rt::choose(2) == 1 {
		m.push(("signature", junk()));
	}
	let want = Event { name: cut(name).to_string(), inputs: vec![EventParam { name: "x".into(), kind: T::Bool, indexed: true }, EventParam { name: "".into(), kind: T::Int(256), indexed: false }], anonymous: anon };
	match serde_json::from_str::<Event>(&object(m)) {
		Ok(f) => check!(event_eq(&f, &want), "event differs from the document"),
		Err(_) => check!(false, "event is not loaded"),
	}
	rt::reach(1);
}
/// whole documents: every sequence of up to 4 entries among two functions f, function g, two events f, event h, constructor, fallback, receive; every lookup
fn c11_document() {
	let n = rt::choose(5);
	let mut s = String::from(" [");
	let (mut fs, mut es): (Vec<(&str, usize)>, Vec<(&str, usize)>) = (vec![], vec![]);
	let (mut ctor, mut fallback, mut receive) = (None, false, false);
	for i in 0..n {
		if i > 0 {
			s.push_str(" ,\n");
		}
		let size = spec::dec(8 * (i + 1));
		let ins = spec::cat(&["[{\"name\":\"a\",\"type\":\"uint", &size, "\"}]"]);
		s.push_str(&match rt::choose(7) {
			0 => {
				fs.push(("f", 8 * (i + 1)));
				fixed(&[("type", "\"function\""), ("name", "\"f\""), ("inputs", &ins), ("outputs", "[]")])
			}
			1 => {
				fs.push(("g", 8 * (i + 1)));
				fixed(&[("inputs", &ins), ("name", "\"g(uint)\""), ("outputs", "[]"), ("type", "\"function\"")])
			}
			2 => {
				es.push(("f", 8 * (i + 1)));
				fixed(&[("name", "\"f\""), ("inputs", &ins), ("type", "\"event\""), ("anonymous", "false")])
			}
			3 => {
				es.push(("h", 8 * (i + 1)));
				fixed(&[("type", "\"event\""), ("name", "\"h\""), ("inputs", &ins), ("anonymous", "true")])
			}
			4 => {
				ctor = Some(8 * (i + 1));
				fixed(&[("inputs", &ins), ("type", "\"constructor\""), ("payable", "true")])
			}
			5 => {
				fallback = true;
				fixed(&[("type", "\"fallback\""), ("payable", "true"), ("stateMutability", "\"payable\"")])
			}
			_ => {
				receive = true;
				fixed(&[("stateMutability", "\"payable\""), ("type", "\"receive\"")])
			}
		});
	}
	s.push_str("]\n");
	let c = match Contract::load(s.as_bytes()) {
		Ok(c) => c,
		Err(_) => {
			check!(false, "the document does not load");
			return;
		}
	};
	check!(c.fallback == fallback && c.receive == receive, "fallback and receive flags");
	let size = |t: &T| if let T::Uint(n) = t { *n } else { 0 };
	check!(c.constructor().map(|k| size(&k.inputs[0].kind)) == ctor, "constructor");
	for name in ["f", "g", "h", "g(uint)", "", "F"] {
		let want: Vec<usize> = fs.iter().filter(|x| x.0 == name).map(|x| x.1).collect();
		match c.functions_by_name(name) {
			Ok(v) => check!(!want.is_empty() && v.iter().map(|f| size(&f.inputs[0].kind)).collect::<Vec<_>>() == want && v.iter().all(|f| f.name == name && f.inputs.len() == 1), "functions of a name"),
			Err(_) => check!(want.is_empty(), "functions not found"),
		}
		match c.function(name) {
			Ok(f) => check!(!want.is_empty() && size(&f.inputs[0].kind) == want[0], "first function of a name"),
			Err(_) => check!(want.is_empty(), "function not found"),
		}
		let want: Vec<usize> = es.iter().filter(|x| x.0 == name).map(|x| x.1).collect();
		match c.events_by_name(name) {
			Ok(v) => check!(!want.is_empty() && v.iter().map(|f| size(&f.inputs[0].kind)).collect::<Vec<_>>() == want && v.iter().all(|f| f.name == name && f.anonymous == (name == "h")), "events of a name"),
			Err(_) => check!(want.is_empty(), "events not found"),
		}
		match c.event(name) {
			Ok(f) => check!(!want.is_empty() && size(&f.inputs[0].kind) == want[0], "first event of a name"),
			Err(_) => check!(want.is_empty(), "event not found"),
		}
	}
	let mut a: Vec<usize> = c.functions().map(|f| size(&f.inputs[0].kind)).collect();
	a.sort_unstable();
	check!(a == fs.iter().map(|x| x.1).collect::<Vec<_>>(), "all functions, each once");
	let mut a: Vec<usize> = c.events().map(|f| size(&f.inputs[0].kind)).collect();
	a.sort_unstable();
	check!(a == es.iter().map(|x| x.1).collect::<Vec<_>>(), "all events, each once");
	rt::reach(1);
}
/// one entry of each kind inside a document with its members (type tag included) in every order, defaults absent; the params come out as declared
fn c11_entry() {
	let mut m = vec![("inputs", "[{\"name\":\"a\",\"components\":[{\"name\":\"z\",\"type\":\"bytes\"}],\"type\":\"tuple[]\"}]".to_string())];
	let t = T::Array(Box::new(T::Tuple(vec![T::Bytes])));
	let k = rt::choose(3);
	match k {
		0 => {
			m.push(("type", "\"function\"".into()));
			m.push(("name", "\"n(m)\"".into()));
			m.push(("outputs", "[{\"type\":\"tuple\",\"name\":\"\",\"components\":[]}]".into()));
			if rt::choose(2) == 1 {
				m.push(("stateMutability", "\"view\"".into()));
			}
		}
		1 => {
			m.push(("type", "\"event\"".into()));
			m.push(("name", "\"n(m)\"".into()));
			m.push(("anonymous", "true".into()));
		}
		_ => {
			m.push(("type", "\"constructor\"".into()));
			m.push(("stateMutability", "\"payable\"".into()));
		}
	}
	if rt::choose(2) == 1 {
		m.push(("gas", "{\"type\":\"event\"}".into()));
	}
	let view = m.len() > 4 && m[4].0 == "stateMutability";
	let s = spec::cat(&["[", &object(m), "]"]);
	match Contract::load(s.as_bytes()) {
		Ok(c) => match k {
			0 => check!(
				c.functions.len() == 1 && c.events.is_empty() && c.constructor.is_none()
					&& matches!(c.function("n"), Ok(f) if f.name == "n" && f.inputs.len() == 1 && param_eq(&f.inputs[0], &param("a", t.clone())) && f.outputs.len() == 1 && spec::ty_eq(&f.outputs[0].kind, &T::Tuple(vec![])) && !f.constant && mutability(f.state_mutability) == if view { 1 } else { 2 }),
				"function differs from the document"
			),
			1 => check!(c.functions.is_empty() && c.constructor.is_none() && matches!(c.event("n"), Ok(f) if f.anonymous && f.inputs.len() == 1 && eparam_eq(&f.inputs[0], &EventParam { name: "a".into(), kind: t.clone(), indexed: false })), "event differs from the document"),
			_ => check!(c.functions.is_empty() && c.events.is_empty() && matches!(c.constructor(), Some(f) if f.inputs.len() == 1 && param_eq(&f.inputs[0], &param("a", t.clone()))), "constructor differs from the document"),
		},
		Err(_) => check!(false, "the document does not load"),
	}
	rt::reach(1);
}
/// any ASCII text of up to 4 characters, and small documents with any one character replaced (by anything but a digit or minus), load or fail without a panic
fn c11_garbage() {
	if rt::choose(2) == 0 {
		let s = gen::text(rt::choose(5));
		for c in s.as_bytes() {
			rt::assume(!c.is_ascii_digit() && *c != b'-');
		}
		let r = Contract::load(s.as_bytes());
		rt::reach(r.is_ok() as u64);
		if let Ok(c) = r {
			check!(c.functions().count() == 0 && c.events().count() == 0, "entries from nowhere");
		}
	} else {
		let mut b = rt::pick(&["[{\"type\":\"receive\"}]", "[{\"type\":\"event\",\"name\":\"\",\"inputs\":[{\"type\":\"int8\",\"name\":\"\"}],\"anonymous\":true}]"]).as_bytes().to_vec();
		let i = rt::choose(b.len());
		b[i] = rt::arr::<1>()[0] & 0x7f;
		rt::assume(!b[i].is_ascii_digit() && b[i] != b'-');
		// names end up as hash map keys: keep the empty one empty
		let r = serde_json::from_slice::<Vec<serde_json::Value>>(&b);
		if let Ok(v) = r {
			let simple = v.iter().all(|x| match x.get("name") {
				Some(serde_json::Value::String(s)) => s.is_empty(),
				_ => true,
			});
			if simple {
				let r = Contract::load(&b[..]);
				rt::reach(r.is_ok() as u64);
			}
		} else {
			check!(Contract::load(&b[..]).is_err(), "malformed JSON is loaded");
		}
	}
}
/// documents with 0 to 257 entries, overloads or params (sizes as in gen::many), names of as many characters, as many unknown members
fn c11_many() {
	let n = gen::many();
	let mut s = String::from("[");
	let k = rt::choose(5);
	match k {
		0 | 1 => {
			for i in 0..n {
				if i > 0 {
					s.push(',');
				}
				let kind = if k == 0 { "\"function\",\"outputs\":[]" } else { "\"event\",\"anonymous\":false" };
				s.push_str(&spec::cat(&["{\"type\":", kind, ",\"name\":\"f(\",\"inputs\":[{\"type\":\"uint", &spec::dec(8 * i + 8), "\",\"name\":\"\"}]}"]));
			}
		}
		2 => {
			s.push_str("{\"type\":\"function\",\"name\":\"f\",\"outputs\":[],\"inputs\":[");
			for i in 0..n {
				if i > 0 {
					s.push(',');
				}
				s.push_str(&spec::cat(&["{\"type\":\"uint", &spec::dec(8 * i + 8), "\",\"name\":\"\"}"]));
			}
			s.push_str("]}");
		}
		3 => {
			s.push_str("{\"type\":\"event\",\"name\":\"");
			for _ in 0..n {
				s.push('f');
			}
			s.push_str("\",\"inputs\":[],\"anonymous\":true}");
		}
		_ => {
			s.push_str("{\"type\":\"constructor\",\"inputs\":[{");
			for i in 0..n {
				s.push_str(&spec::cat(&["\"k", &spec::dec(i), "\":[{\"type\":null}],"]));
			}
			s.push_str("\"name\":\"a\",\"type\":\"uint8\"}]}");
		}
	}
	s.push(']');
	let c = match Contract::load(s.as_bytes()) {
		Ok(c) => c,
		Err(_) => {
			check!(false, "the document does not load");
			return;
		}
	};
	let size = |t: &T| if let T::Uint(n) = t { *n } else { 0 };
	let want: Vec<usize> = (0..n).map(|i| 8 * i + 8).collect();
	let got: Vec<usize> = match k {
		0 => c.functions_by_name("f").map(|v| v.iter().map(|f| size(&f.inputs[0].kind)).collect()).unwrap_or_default(),
		1 => c.events_by_name("f").map(|v| v.iter().map(|f| size(&f.inputs[0].kind)).collect()).unwrap_or_default(),
		2 => c.function("f").map(|f| f.inputs.iter().map(|p| size(&p.kind)).collect()).unwrap_or_default(),
		3 => {
			check!(c.event(&"f".repeat(n)).is_ok() && c.events().count() == 1, "an event with a long name");
			return;
		}
		_ => {
			check!(matches!(c.constructor(), Some(k) if k.inputs.len() == 1 && k.inputs[0].name == "a" && size(&k.inputs[0].kind) == 8), "unknown members are ignored");
			return;
		}
	};
	check!(got == want, "every entry, in document order");
}
/// a member of a param given twice with every pair of values: rejected where the member is known, whatever the values
fn c11_twice() {
	let which = rt::choose(3);
	let (k, vs): (&str, &[&str]) = match rt::choose(5) {
		0 => ("name", &["\"a\"", "\"\"", "\"b\""]),
		1 => ("type", &["\"tuple\"", "\"bool\"", "\"tuple[]\""]),
		2 => ("components", &["[]", "[{\"type\":\"bool\"}]", "[{\"type\":\"int8\"},{\"type\":\"bool\"}]"]),
		3 => ("internalType", &["\"\"", "\"a\"", "\"b\""]),
		_ => ("indexed", &["true", "false"]),
	};
	let (a, b) = (rt::pick(vs), rt::pick(vs));
	let known = match k {
		"internalType" => which != 1,
		"indexed" => which == 1,
		_ => true,
	};
	// the two at every place among the others
	let mut m: Vec<(&str, &str)> = [("name", "\"n\""), ("type", "\"tuple\""), ("components", "[]")].iter().filter(|x| x.0 != k).cloned().collect();
	let i = rt::choose(m.len() + 1);
	m.insert(i, (k, a));
	let j = i + 1 + rt::choose(m.len() - i);
	m.insert(j, (k, b));
	let s = fixed(&m);
	let ok = match which {
		0 => serde_json::from_str::<Param>(&s).is_ok(),
		1 => serde_json::from_str::<EventParam>(&s).is_ok(),
		_ => serde_json::from_str::<TupleParam>(&s).is_ok(),
	};
	check!(ok == !known, "a member given twice");
	rt::reach(ok as u64);
}
/// two or three entries of the same name, each with any of three lists of inputs and of two lists of outputs, constancy and mutability or of two anonymities: all kept, in order, with their own contents, equal ones included
fn c11_overloads() {
	let n = 2 + rt::choose(2);
	let event = rt::choose(2) == 1;
	let mut s = String::from("[");
	let mut want = vec![];
	for i in 0..n {
		if i > 0 {
			s.push(',');
		}
		let (a, b) = (rt::choose(3), rt::choose(2));
		want.push((a, b));
		let ins = ["[]", "[{\"name\":\"x\",\"type\":\"bool\"}]", "[{\"name\":\"y\",\"type\":\"bool\"}]"][a];
		s.push_str(&if event {
			fixed(&[("type", "\"event\""), ("name", "\"f\""), ("inputs", ins), ("anonymous", ["false", "true"][b])])
		} else {
			fixed(&[("type", "\"function\""), ("name", "\"f\""), ("inputs", ins), ("outputs", ["[]", "[{\"name\":\"\",\"type\":\"bool\"}]"][b]), ("stateMutability", ["\"view\"", "\"payable\""][b])])
		});
	}
	s.push(']');
	let ins = |a: usize| match a {
		0 => vec![],
		_ => vec![param(["", "x", "y"][a], T::Bool)],
	};
	match Contract::load(s.as_bytes()) {
		Ok(c) if event => match c.events_by_name("f") {
			Ok(v) => {
				let mut ok = v.len() == n && c.events().count() == n;
				for (e, (a, b)) in v.iter().zip(&want) {
					let w = ins(*a).into_iter().map(|p| EventParam { name: p.name, kind: p.kind, indexed: false }).collect();
					ok &= event_eq(e, &Event { name: "f".into(), inputs: w, anonymous: *b == 1 });
				}
				check!(ok, "every event, in document order");
			}
			Err(_) => check!(false, "events not found"),
		},
		Ok(c) => match c.functions_by_name("f") {
			Ok(v) => {
				let mut ok = v.len() == n && c.functions().count() == n;
				for (f, (a, b)) in v.iter().zip(&want) {
					let outputs = if *b == 1 { vec![param("", T::Bool)] } else { vec![] };
					ok &= function_eq(f, &Function { name: "f".into(), inputs: ins(*a), outputs, constant: false, state_mutability: [M::View, M::Payable][*b] });
				}
				check!(ok, "every function, in document order");
			}
			Err(_) => check!(false, "functions not found"),
		},
		Err(_) => check!(false, "the document does not load"),
	}
	rt::reach(1);
}
/// keys and names written with escapes (\u00XX of every character, short escapes, surrogate pairs) mean the characters they stand for, loaded from a text or a reader
fn c11_escapes() {
	let esc = |s: &str, at: usize| {
		let mut o = String::new();
		for (i, c) in s.bytes().enumerate() {
			if i == at {
				o.push_str(&spec::cat(&["\\u00", std::str::from_utf8(&spec::hex(&[c], false)).unwrap()]));
			} else {
				o.push(c as char);
			}
		}
		o
	};
	// one place of all the keys and types at a time
	let at = rt::choose(36);
	let n = std::cell::Cell::new(0);
	let key = |k: &str| {
		let o = esc(k, at.wrapping_sub(n.get()));
		n.set(n.get() + k.len());
		o
	};
	let (text, name) = rt::pick(&[("a\\u00e9", "a\u{e9}"), ("\\ud83d\\ude00", "\u{1f600}"), ("\\\"\\\\\\/", "\"\\/"), ("\\b\\f\\n\\r\\t", "\u{8}\u{c}\n\r\t"), ("\u{e9}", "\u{e9}"), ("\\u0000", "\0"), ("\\u0028", "(")]);
	let which = rt::choose(4);
	let names = spec::cat(&["\"", &key("name"), "\":\"", text, "\""]);
	let p = spec::cat(&["{", &names, ",\"", &key("type"), "\":\"", &key("bool"), "\"}"]);
	let reader = rt::choose(2) == 1;
	match which {
		0 => {
			let got = if reader { serde_json::from_reader::<_, Param>(p.as_bytes()) } else { serde_json::from_str::<Param>(&p) };
			check!(matches!(got, Ok(g) if param_eq(&g, &param(name, T::Bool))), "param with escapes");
		}
		1 => {
			let p = spec::cat(&["{\"", &key("indexed"), "\":true,", &p[1..]]);
			let got = if reader { serde_json::from_reader::<_, EventParam>(p.as_bytes()) } else { serde_json::from_str::<EventParam>(&p) };
			check!(matches!(got, Ok(g) if eparam_eq(&g, &EventParam { name: name.into(), kind: T::Bool, indexed: true })), "event param with escapes");
		}
		2 => {
			let p = spec::cat(&["{\"type\":\"tuple\",\"name\":\"n\",\"", &key("components"), "\":[", &p, "],\"", &key("internalType"), "\":\"", text, "\"}"]);
			let got = if reader { serde_json::from_reader::<_, Param>(p.as_bytes()) } else { serde_json::from_str::<Param>(&p) };
			check!(matches!(got, Ok(g) if param_eq(&g, &Param { name: "n".into(), kind: T::Tuple(vec![T::Bool]), internal_type: Some(name.into()) })), "tuple param with escapes");
		}
		_ => {
			let f = spec::cat(&["[{\"", &key("type"), "\":\"", &key("function"), "\",", &names, ",\"", "inputs\":[],\"outputs\":[]}]"]);
			let kept = cut(name);
			let got = if reader { Contract::load(f.as_bytes()).ok() } else { serde_json::from_str::<Contract>(&f).ok() };
			check!(matches!(&got, Some(c) if matches!(c.function(kept), Ok(g) if g.name == kept)), "function with escapes");
		}
	}
	rt::reach(1);
}
}
