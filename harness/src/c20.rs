use crate::{gen, rt, spec};
use ethabi::token::{LenientTokenizer, StrictTokenizer, Tokenizer};
use ethabi::{Event, EventParam, ParamType as T, RawLog, Token};

mod cli {
	// the tool's source as check.py copied it from /repo/cli/src, paths from the crate root adjusted
	include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../.build/cli-src/main.rs"));
	pub fn run(args: Vec<String>) -> Option<String> {
		execute(args).ok()
	}
}
const ABI: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/abi/cli.abi");
#[path = "c20w.rs"]
mod wide;
const NOT_JSON: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/Cargo.toml");

fn args(a: &[&str]) -> Vec<String> {
	let mut v = vec!["ethabi".to_string()];
	v.extend(a.iter().map(|s| s.to_string()));
	v
}
fn string(b: Vec<u8>) -> String {
	unsafe { String::from_utf8_unchecked(b) }
}
/// the output is the text, or an error where there is none
fn outcome(got: Option<String>, want: Option<Vec<u8>>) -> bool {
	match (got, want) {
		(Some(g), Some(w)) => {
			rt::reach(1);
			rt::observe(g.as_bytes());
			rt::same(g.as_bytes(), &w)
		}
		(None, None) => {
			rt::reach(0);
			true
		}
		_ => false,
	}
}
fn tokenize(t: &T, s: &str, lenient: bool) -> Option<Token> {
	if lenient {
		LenientTokenizer::tokenize(t, s).ok()
	} else {
		StrictTokenizer::tokenize(t, s).ok()
	}
}
/// the texts read as values of the types
fn tokens(ts: &[T], vals: &[String], lenient: bool) -> Option<Vec<Token>> {
	if ts.len() != vals.len() {
		return None;
	}
	let mut v = vec![];
	for (t, s) in ts.iter().zip(vals) {
		v.push(tokenize(t, s, lenient)?);
	}
	Some(v)
}
/// hexadecimal text of a word, some of its digits arbitrary
fn word(n: usize, fill: u8, free: &[usize]) -> Vec<u8> {
	let mut v = vec![fill; n];
	let s = gen::over(free.len(), b"0123456789abcdefABCDEF");
	for (i, c) in free.iter().zip(s) {
		v[*i] = c;
	}
	v
}
/// a text for a value of the type: many that fit, many that do not
fn value(t: &T) -> String {
	string(match t {
		T::Bool => match rt::choose(3) {
			0 => gen::over(rt::choose(3), b"01t,"),
			1 => b"true".to_vec(),
			_ => b"false".to_vec(),
		},
		T::String => match rt::choose(3) {
			0 => gen::over(rt::choose(4), b"a,\"[( ="),
			1 => "\u{e9}\u{1f600} x".into(),
			_ => gen::over(1, b"a1").repeat(40),
		},
		T::Uint(_) | T::Int(_) => match rt::choose(3) {
			0 => gen::over(rt::choose(4), b"0149a"),
			1 => word(64, b'0', &[0, 31, 62, 63]),
			_ => word(63, b'9', &[]),
		},
		T::Address => match rt::choose(2) {
			0 => word(40, b'7', &[0, 1, 39]),
			_ => word(41, b'7', &[]),
		},
		T::FixedBytes(n) => match rt::choose(2) {
			0 => word(2 * n, b'7', &[0, 2 * n - 1]),
			_ => word(2 * n - 2, b'7', &[]),
		},
		T::Bytes => gen::over(rt::pick(&[0, 1, 2, 4]), b"09afAFg"),
		T::Array(_) => match rt::choose(3) {
			0 => b"[]".to_vec(),
			1 => [&b"["[..], &gen::over(3, b"01,"), &b"]"[..]].concat(),
			_ => gen::over(2, b"[]1"),
		},
		_ => match rt::choose(2) {
			0 => [&b"("[..], &gen::over(3, b"01,"), &b")"[..]].concat(),
			_ => b"(1,0000000000000000000000000000000000000000000000000000000000000007)".to_vec(),
		},
	})
}
/// rendered values, one per line, after the given labels
fn lines(labels: &[String], v: &[Token]) -> Vec<u8> {
	let mut o = vec![];
	for (i, (l, t)) in labels.iter().zip(v).enumerate() {
		if i > 0 {
			o.push(b'\n');
		}
		o.extend_from_slice(l.as_bytes());
		o.push(b' ');
		o.extend_from_slice(t.to_string().as_bytes());
	}
	o
}
fn types(ts: &[&str]) -> Vec<T> {
	ts.iter().map(|t| spec::ty(t)).collect()
}
/// the functions of the ABI file: the text that selects one, its name, inputs and outputs
const FUNCTIONS: &[(&str, &str, &[&str], &[&str])] = &[
	("foo", "foo", &["bool"], &[]),
	("foo(bool)", "foo", &["bool"], &[]),
	("bar(bool)", "bar", &["bool"], &[]),
	("bar(string):(uint256)", "bar", &["string"], &["uint256"]),
	("bar(bool,uint8):(bool,bool)", "bar", &["bool", "uint8"], &["bool", "bool"]),
	("none", "none", &[], &[]),
	("none()", "none", &[], &[]),
	("pair", "pair", &["uint256", "string"], &["bytes2", "int256", "bool[]"]),
	("list", "list", &["bool[]", "(bool,uint8)"], &["address"]),
	("list(bool[],(bool,uint8)):(address)", "list", &["bool[]", "(bool,uint8)"], &["address"]),
	("out", "out", &[], &["string", "uint8"]),
];
/// texts that select no function
const NO_FUNCTION: &[&str] = &["bar", "nope", "fo", "fooo", "Foo", "bar(uint8)", "bar(string)", "bar(bool):(bool)", "bar(bool", "(bool)", "nope(bool)", "foo()", "foo(bool,bool)", "foo(bool)x", "foo (bool)", "Event"];
/// hexadecimal data for decoding: a valid encoding, some of it arbitrary, or malformed text
fn data(ts: &[T]) -> String {
	let mut sh = gen::shape(&[&[0], &[3]], &[&[0], &[2]]);
	sh.zero = true;
	let e = spec::enc(&sh.values(ts));
	let mut h = spec::hex(&e, false);
	match rt::choose(4) {
		0 => {
			// two digits of one word arbitrary
			if !e.is_empty() {
				let w = 64 * rt::choose(e.len() / 32);
				let at = w + rt::pick(&[0, 23, 62]);
				let d = gen::over(2, b"0123456789abcdefABCDEF");
				h[at] = d[0];
				h[at + 1] = d[1];
			}
		}
		1 => {
			// one character anything
			if !e.is_empty() {
				let at = rt::pick(&[0, 1, h.len() - 1]);
				h[at] = gen::text(1).as_bytes()[0];
			}
			if at_dash(&h) {
				rt::done();
			}
		}
		2 => {
			h.pop();
			if rt::choose(2) == 0 {
				h.pop();
			}
		}
		_ => h.extend_from_slice(&gen::over(rt::choose(3), b"0f")),
	}
	string(h)
}
/// a value that looks like an option is a matter of the option parser
fn at_dash(h: &[u8]) -> bool {
	!h.is_empty() && h[0] == b'-'
}
/// decoded hexadecimal text
fn unhex(s: &str) -> Option<Vec<u8>> {
	let (v, ok) = spec::unhex(s.as_bytes());
	if ok {
		Some(v)
	} else {
		None
	}
}
fn event(name: &str, anonymous: bool, ps: &[(&str, &str, bool)]) -> Event {
	Event { name: name.into(), anonymous, inputs: ps.iter().map(|(n, t, i)| EventParam { name: (*n).into(), kind: spec::ty(t), indexed: *i }).collect() }
}

/// a text that fits the type in strict notation, and what it stands for
fn fits(t: &T, w: usize) -> (String, Token) {
	use ethabi::ethereum_types::{H160, U256};
	let list = |ts: &[&T], a: &str, b: &str| {
		let mut s = String::from(a);
		let mut v = vec![];
		for (i, t) in ts.iter().enumerate() {
			let (x, y) = fits(t, w + i);
			s.push_str(if i > 0 { "," } else { "" });
			s.push_str(&x);
			v.push(y);
		}
		s.push_str(b);
		(s, v)
	};
	match t {
		T::Bool => (if w % 2 == 1 { "true" } else { "false" }.into(), Token::Bool(w % 2 == 1)),
		T::String => ("abc"[w % 3..].into(), Token::String("abc"[w % 3..].into())),
		T::Bytes => ("00ff7f"[..2 * (w % 4)].into(), Token::Bytes([0, 255, 127][..w % 4].to_vec())),
		T::Address => (["f0"; 20].concat(), Token::Address(H160([0xf0; 20]))),
		T::Uint(_) => (format!("{:064x}", w + 3), Token::Uint(U256::from(w as u64 + 3))),
		T::Int(_) => (["ff"; 32].concat(), Token::Int(U256::max_value())),
		T::FixedBytes(n) => (["a5", "5a"][w % 2].repeat(*n), Token::FixedBytes(vec![[0xa5, 0x5a][w % 2]; *n])),
		T::Array(t) => {
			let (s, v) = list(&vec![&**t; w % 3], "[", "]");
			(s, Token::Array(v))
		}
		T::FixedArray(t, n) => {
			let (s, v) = list(&vec![&**t; *n], "[", "]");
			(s, Token::FixedArray(v))
		}
		T::Tuple(ts) => {
			let (s, v) = list(&ts.iter().collect::<Vec<_>>(), "(", ")");
			(s, Token::Tuple(v))
		}
	}
}
fn joined(ts: &[T]) -> String {
	ts.iter().map(spec::name).collect::<Vec<_>>().join(",")
}
/// a big-endian word of one of the values, some bits arbitrary
fn digits(h: &mut [u8]) {
	if !h.is_empty() {
		let at = 64 * rt::choose(h.len() / 64) + rt::pick(&[0, 63]);
		h[at] = gen::over(1, b"0123456789abcdef")[0];
	}
}

harness! {
/// encode params with 0..=2 pairs of 8 types and texts that fit or do not (symbolic digits, characters and separators, up to 64 characters), strict or lenient, the flag in front or behind
fn c20_encode_params() {
	let n = rt::choose(3);
	let lenient = rt::choose(3);
	let mut a = args(&["encode", "params"]);
	if lenient == 1 {
		a.push("--lenient".into());
	}
	let mut ts = vec![];
	let mut vals = vec![];
	for i in 0..n {
		let names: &[&str] = if n == 1 { &["bool", "string", "uint256", "int8", "address", "bytes3", "bytes", "bool[]", "(bool,uint8)"] } else if i == 0 { &["bool", "string"] } else { &["uint8", "bool[]"] };
		let t = rt::pick(names);
		ts.push(spec::ty(t));
		let v = value(&ts[i]);
		a.push("-v".into());
		a.push(t.into());
		a.push(v.clone());
		vals.push(v);
	}
	if lenient == 2 {
		a.push("-l".into());
	}
	let want = tokens(&ts, &vals, lenient > 0).map(|v| spec::hex(&ethabi::encode(&v), false));
	check!(outcome(cli::run(a), want), "encode params");
}
/// encode params with negative numbers: a minus and up to 3 symbolic digits, or 64 characters; and with malformed type names of up to 4 symbolic characters
fn c20_encode_odd() {
	let lenient = rt::choose(2) == 1;
	let (t, v) = if rt::choose(2) == 0 {
		let mut v = b"-".to_vec();
		v.extend_from_slice(&gen::over(1 + rt::choose(3), b"0123456789"));
		(rt::pick(&["int256", "uint256", "string", "int8[]"]).to_string(), string(v))
	} else {
		let mut t = rt::pick(&["", "uint", "bool", "(bool", "bytes"]).to_string();
		t.push_str(&string(gen::over(rt::choose(3), b"[]()1,")));
		(t, "1".to_string())
	};
	let mut a = args(&["encode", "params", "-v", &t, &v]);
	if lenient {
		a.push("--lenient".into());
	}
	let want = match ethabi::param_type::Reader::read(&t) {
		Ok(ty) => tokens(&[ty], &[v], lenient).map(|v| spec::hex(&ethabi::encode(&v), false)),
		Err(_) => None,
	};
	check!(outcome(cli::run(a), want), "encode params");
}
/// encode function for each of 11 ways to select a function of an ABI file with overloads: as many values as it takes, one more or one fewer, texts that fit or do not, strict or lenient
fn c20_encode_function() {
	let (sel, name, ins, outs) = rt::pick(FUNCTIONS);
	let ts = types(ins);
	let lenient = rt::choose(2) == 1;
	let n = match rt::choose(3) {
		0 => ts.len(),
		1 => ts.len() + 1,
		_ => ts.len().saturating_sub(1),
	};
	let mut a = args(&["encode", "function", ABI, sel]);
	if lenient {
		a.push("-l".into());
	}
	let mut vals = vec![];
	for i in 0..n {
		let v = if n == ts.len() { value(&ts[i]) } else { "1".to_string() };
		if at_dash(v.as_bytes()) {
			rt::done();
		}
		a.push("-p".into());
		a.push(v.clone());
		vals.push(v);
	}
	let want = tokens(&ts, &vals, lenient).and_then(|v| gen::function(name, &ts, &types(outs)).encode_input(&v).ok()).map(|b| spec::hex(&b, false));
	check!(outcome(cli::run(a), want), "encode function");
}
/// names and signatures that select no function (ambiguous, unknown, wrong or truncated signatures), files that are missing or not JSON: an error for encode and decode; every name of up to 3 characters of the letters in foo and a parenthesis
fn c20_no_function() {
	let (file, sel) = match rt::choose(4) {
		0 => (ABI, rt::pick(NO_FUNCTION).to_string()),
		1 => ("/nonexistent/file.abi", "foo".to_string()),
		2 => (NOT_JSON, "foo".to_string()),
		_ => {
			let s = rt::pick(&["foo", "fox", "ofo", "fo(", "foo(", "foo()", "oo", "f", "(", ")", "foo)", "foo:", "foo(bool):", "foo(bool):()", " foo", "foo ", "none(", "none():()", "pair(uint256,string)", "bar(string):(uint)", "bar(string):(uint256)(", "out()", "out():(string)", "out():(string,uint)", "list(bool[],(bool,uint8))", "list(bool[],tuple):(address)"]);
			(ABI, s.to_string())
		}
	};
	let a = match rt::choose(3) {
		0 => args(&["encode", "function", file, &sel, "-p", "1"]),
		1 => args(&["encode", "function", file, &sel]),
		_ => args(&["decode", "function", file, &sel, "00"]),
	};
	// the one text of the list that is a name, with the one value it takes
	let want = if sel == "foo" && file == ABI && a[1] == "encode" && a.len() == 7 {
		gen::function("foo", &[T::Bool], &[]).encode_input(&[Token::Bool(true)]).ok().map(|b| spec::hex(&b, false))
	} else if sel == "foo" && file == ABI && a[1] == "decode" {
		ethabi::decode(&[], &[0]).ok().map(|_| vec![])
	} else {
		None
	};
	check!(outcome(cli::run(a), want), "no function");
}
/// decode params for lists of 0..=2 of 8 types: valid encodings with two digits of a word arbitrary, any one character anything, a digit or byte missing, up to 2 digits too many
fn c20_decode_params() {
	rt::ascii(true);
	let n = rt::choose(3);
	let mut a = args(&["decode", "params"]);
	let mut ts = vec![];
	let mut labels = vec![];
	for i in 0..n {
		let names: &[&str] = if n == 1 { &["bool", "string", "uint256", "int8", "address", "bytes3", "bytes", "bool[]", "(bool,uint8)", "uint8[2]", "uint"] } else if i == 0 { &["bool", "string"] } else { &["uint8", "bool[]"] };
		let t = rt::pick(names);
		ts.push(if t == "uint" { T::Uint(256) } else { spec::ty(t) });
		labels.push(spec::name(&ts[i]));
		a.push("-t".into());
		a.push(t.into());
	}
	let d = data(&ts);
	if d.is_empty() {
		// an empty data argument
		rt::reach(2);
	}
	a.push(d.clone());
	let want = unhex(&d).and_then(|d| ethabi::decode(&ts, &d).ok()).map(|v| lines(&labels, &v));
	check!(outcome(cli::run(a), want), "decode params");
}
/// decode function for each of 11 ways to select a function of an ABI file with overloads, data as above
fn c20_decode_function() {
	rt::ascii(true);
	let (sel, name, ins, outs) = rt::pick(FUNCTIONS);
	let ts = types(outs);
	let d = data(&ts);
	let labels: Vec<String> = ts.iter().map(spec::name).collect();
	let f = gen::function(name, &types(ins), &ts);
	let want = unhex(&d).and_then(|d| f.decode_output(&d).ok()).map(|v| lines(&labels, &v));
	check!(outcome(cli::run(args(&["decode", "function", ABI, sel, &d])), want), "decode function");
}
/// decode log for each of 8 ways to select an event of an ABI file with overloads: topics as emitted with two digits of one arbitrary (0x prefix or not), one topic more or fewer, malformed topics, data as above
fn c20_decode_log() {
	rt::ascii(true);
	let (sel, e) = match rt::choose(8) {
		0 => ("Event", event("Event", false, &[("a", "bool", false), ("b", "uint256", true), ("c", "string", false)])),
		1 => ("Event(bool,uint256,string)", event("Event", false, &[("a", "bool", false), ("b", "uint256", true), ("c", "string", false)])),
		2 => ("Dup(bool)", event("Dup", false, &[("a", "bool", false)])),
		3 => ("Dup(bool,uint8)", event("Dup", false, &[("a", "bool", true), ("b", "uint8", false)])),
		4 => ("Dup(uint8)", event("Dup", false, &[("a", "uint8", true)])),
		5 => ("Dup(bool, uint8)", event("Dup", false, &[("a", "bool", true), ("b", "uint8", false)])),
		6 => ("Anon", event("Anon", true, &[("x", "bytes2", true), ("", "string", true), ("", "bool", false)])),
		_ => ("Anon(bytes2,string,bool)", event("Anon", true, &[("x", "bytes2", true), ("", "string", true), ("", "bool", false)])),
	};
	let mut topics: Vec<Vec<u8>> = vec![];
	if !e.anonymous {
		topics.push(spec::hex(&crate::c12::sig(&e).0, false));
	}
	for p in &e.inputs {
		if p.indexed {
			topics.push(vec![b'0'; 64]);
		}
	}
	let how = rt::choose(7);
	let last = topics.len() - 1;
	match how {
		0 => {}
		1 => {
			let i = rt::choose(topics.len());
			let at = rt::pick(&[0, 3, 62]);
			let d = gen::over(2, b"0123456789abcdef");
			topics[i][at] = d[0];
			topics[i][at + 1] = d[1];
		}
		2 => {
			topics.pop();
		}
		3 => topics.push(vec![b'0'; 64]),
		4 => {
			let at = rt::pick(&[0, 63]);
			topics[last][at] = gen::text(1).as_bytes()[0];
			if at_dash(&topics[last]) {
				rt::done();
			}
		}
		5 => {
			topics[last].pop();
		}
		_ => topics.reverse(),
	}
	let ts: Vec<T> = e.inputs.iter().filter(|p| !p.indexed).map(|p| p.kind.clone()).collect();
	let d = if how == 0 {
		data(&ts)
	} else {
		let mut sh = gen::shape(&[&[3]], &[&[1]]);
		sh.zero = true;
		string(spec::hex(&spec::enc(&sh.values(&ts)), false))
	};
	let mut a = args(&["decode", "log", ABI, sel]);
	let mut hashes = Some(vec![]);
	for t in &topics {
		a.push("-l".into());
		a.push(string(t.clone()));
		let h = if t.len() == 64 { unhex(std::str::from_utf8(t).unwrap_or("x")) } else { None };
		match (h, &mut hashes) {
			(Some(h), Some(v)) => v.push(ethabi::ethereum_types::H256::from_slice(&h)),
			_ => hashes = None,
		}
	}
	a.push(d.clone());
	let want = match (hashes, unhex(&d)) {
		(Some(topics), Some(data)) => e.parse_log(RawLog { topics, data }).ok().map(|l| {
			let labels: Vec<String> = l.params.iter().map(|p| p.name.clone()).collect();
			let v: Vec<Token> = l.params.iter().map(|p| p.value.clone()).collect();
			lines(&labels, &v)
		}),
		_ => None,
	};
	check!(outcome(cli::run(a), want), "decode log");
}
/// texts that select no event: ambiguous, unknown, wrong signatures
fn c20_no_event() {
	let sel = rt::pick(&["Dup", "Nope", "Dup()", "Dup(uint16)", "Dup(uint8", "Dup(uint8):", "Nope(bool)", "(bool)", "Event()", "event", "Event(bool,uint256)", "foo", "Anon()"]);
	let z = "0000000000000000000000000000000000000000000000000000000000000000";
	check!(outcome(cli::run(args(&["decode", "log", ABI, sel, "-l", z, z])), None), "no event");
}
/// encode and decode params with 0..=24, 33 and 65 pairs or types, each value right or the first, middle or last one wrong; decode log with up to 12 topics
fn c20_many() {
	let n = rt::pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 33, 65]);
	let ts: Vec<T> = (0..n).map(|i| if i % 2 == 0 { T::Bool } else { T::String }).collect();
	match rt::choose(3) {
		0 => {
			let mut a = args(&["encode", "params"]);
			let mut vals: Vec<String> = (0..n).map(|i| (i % 2).to_string()).collect();
			if n > 0 {
				let at = rt::pick(&[0, n / 2, n - 1]);
				vals[at] = string(gen::over(1, b"01x"));
			}
			for (t, v) in ts.iter().zip(&vals) {
				a.push("-v".into());
				a.push(spec::name(t));
				a.push(v.clone());
			}
			let want = tokens(&ts, &vals, false).map(|v| spec::hex(&ethabi::encode(&v), false));
			check!(outcome(cli::run(a), want), "encode params");
		}
		1 => {
			let mut a = args(&["decode", "params"]);
			let mut sh = gen::shape(&[&[1]], &[&[1]]);
			sh.zero = true;
			let e = spec::enc(&sh.values(&ts));
			let mut d = spec::hex(&e, false);
			if n > 0 {
				let w = rt::pick(&[0, n - 1]);
				d[64 * w + 63] = gen::over(1, b"0123456789abcdef")[0];
			}
			let d = string(d);
			let labels: Vec<String> = ts.iter().map(spec::name).collect();
			for l in &labels {
				a.push("-t".into());
				a.push(l.clone());
			}
			a.push(d.clone());
			let want = unhex(&d).and_then(|d| ethabi::decode(&ts, &d).ok()).map(|v| lines(&labels, &v));
			check!(outcome(cli::run(a), want), "decode params");
		}
		_ => {
			rt::assume(n < 13);
			let mut a = args(&["decode", "log", ABI, "Anon"]);
			let e = event("Anon", true, &[("x", "bytes2", true), ("", "string", true), ("", "bool", false)]);
			let z = "0000000000000000000000000000000000000000000000000000000000000000";
			let mut topics = vec![];
			for _ in 0..n {
				a.push("-l".into());
				a.push(z.into());
				topics.push(Default::default());
			}
			a.push(z.into());
			let want = e.parse_log(RawLog { topics, data: vec![0; 32] }).ok().map(|l| {
				let labels: Vec<String> = l.params.iter().map(|p| p.name.clone()).collect();
				let v: Vec<Token> = l.params.iter().map(|p| p.value.clone()).collect();
				lines(&labels, &v)
			});
			check!(outcome(cli::run(a), want), "decode log");
		}
	}
}
/// encode params with one value of up to 3 arbitrary ASCII characters, or a fitting one after or before up to 2 of them; 8 types, strict or lenient
fn c20_text() {
	let t = rt::pick(&["string", "bytes", "bool", "bytes1", "uint8", "int16", "address", "string[]"]);
	let lenient = rt::choose(2) == 1;
	let v = match rt::choose(3) {
		0 => gen::text(rt::choose(4)),
		i => {
			let x = string(match t {
				"string" => "abc".into(),
				"bytes" | "bytes1" => b"7f".to_vec(),
				"bool" => b"true".to_vec(),
				"address" => vec![b'7'; 40],
				"string[]" => b"[a, b]".to_vec(),
				_ if lenient => b"12".to_vec(),
				_ => vec![b'0'; 64],
			});
			let n = gen::text(1 + rt::choose(2));
			if i == 1 {
				spec::cat(&[&n, &x])
			} else {
				spec::cat(&[&x, &n])
			}
		}
	};
	if at_dash(v.as_bytes()) {
		rt::done();
	}
	let ty = spec::ty(t);
	let mut a = args(&["encode", "params", "-v", t, &v]);
	if lenient {
		a.push("-l".into());
	}
	let want = tokens(&[ty], &[v], lenient).map(|v| spec::hex(&ethabi::encode(&v), false));
	check!(outcome(cli::run(a), want), "encode params");
}
/// every text that selects a function or an event with one character left out, doubled, replaced by or preceded by one of 8 others, or in the other case: it selects something exactly when it is a unique name or a signature (spaces do not matter in an event's)
fn c20_selector() {
	let f = rt::choose(2) == 0;
	let sels: &[&str] = if f { &["foo", "foo(bool)", "bar(string):(uint256)", "bar(bool,uint8):(bool,bool)", "none()", "list(bool[],(bool,uint8)):(address)"] } else { &["Event", "Dup(bool)", "Dup(bool,uint8)", "Event(bool,uint256,string)", "Anon(bytes2,string,bool)"] };
	let mut b = rt::pick(sels).as_bytes().to_vec();
	let at = rt::choose(b.len());
	match rt::choose(6) {
		0 => {}
		1 => {
			b.remove(at);
		}
		2 => b.insert(at, b[at]),
		3 => b[at] = rt::pick(b" ,():x0B"),
		4 => b.insert(at, rt::pick(b" ,():x0B")),
		_ => b[at] ^= 0x20 * b[at].is_ascii_alphabetic() as u8,
	}
	let s = string(b);
	let z = "0000000000000000000000000000000000000000000000000000000000000000";
	if f {
		let name = s.split('(').next().unwrap();
		let same: Vec<_> = [("foo", "foo(bool)"), ("bar", "bar(bool)"), ("bar", "bar(string):(uint256)"), ("bar", "bar(bool,uint8):(bool,bool)"), ("none", "none()"), ("pair", "pair(uint256,string):(bytes2,int256,bool[])"), ("list", "list(bool[],(bool,uint8)):(address)"), ("out", "out():(string,uint8)")].iter().filter(|x| x.0 == name && (!s.contains('(') || x.1 == s)).cloned().collect();
		let got = cli::run(args(&["decode", "function", ABI, &s, spec::cat(&[z, z, z]).as_str()]));
		// all of them decode from three zero words
		let want = if same.len() == 1 {
			let outs = FUNCTIONS.iter().find(|x| x.0 == same[0].1 || x.0 == same[0].0).unwrap().3;
			let ts = types(outs);
			ethabi::decode(&ts, &[0; 96]).ok().map(|v| lines(&ts.iter().map(spec::name).collect::<Vec<_>>(), &v))
		} else {
			None
		};
		check!(outcome(got, want), "the function selected");
	} else {
		let name = s.split('(').next().unwrap();
		let bare = s.replace(' ', "");
		let n = [("Event", "Event(bool,uint256,string)"), ("Dup", "Dup(bool)"), ("Dup", "Dup(bool,uint8)"), ("Dup", "Dup(uint8)"), ("Anon", "Anon(bytes2,string,bool)")].iter().filter(|x| x.0 == name && (!s.contains('(') || x.1 == bare)).count();
		let is = |x: &str| bare == x || x.split('(').next() == Some(&bare);
		let (topics, data): (Vec<[u8; 32]>, String) = if is("Event(bool,uint256,string)") {
			(vec![rt::keccak(b"Event(bool,uint256,string)"), [0; 32]], spec::cat(&[z, z, z]))
		} else if is("Dup(bool,uint8)") && bare.contains(',') {
			(vec![rt::keccak(b"Dup(bool,uint8)"), [0; 32]], z.to_string())
		} else if bare == "Dup(uint8)" {
			(vec![rt::keccak(b"Dup(uint8)"), [0; 32]], z.to_string())
		} else if is("Anon(bytes2,string,bool)") {
			(vec![[0; 32], [0; 32]], z.to_string())
		} else {
			(vec![rt::keccak(b"Dup(bool)")], z.to_string())
		};
		let mut a = args(&["decode", "log", ABI, &s]);
		for t in &topics {
			a.push("-l".into());
			a.push(string(spec::hex(t, false)));
		}
		a.push(data);
		let got = cli::run(a);
		check!(got.is_some() == (n == 1), "the event selected");
	}
}
/// decode params, function and log with data or a topic after or before 1 or 2 arbitrary characters: an error unless the whole is hexadecimal; and decode params of byte strings with all digits symbolic
fn c20_affix() {
	rt::ascii(true);
	let z = "0000000000000000000000000000000000000000000000000000000000000000";
	let x = gen::text(1 + rt::choose(2));
	let front = rt::choose(2) == 0;
	let odd = if front { spec::cat(&[&x, z]) } else { spec::cat(&[z, &x]) };
	if at_dash(odd.as_bytes()) {
		rt::done();
	}
	match rt::choose(4) {
		0 => {
			let got = cli::run(args(&["decode", "params", "-t", "uint8", &odd]));
			let want = unhex(&odd).and_then(|d| ethabi::decode(&[T::Uint(8)], &d).ok()).map(|v| lines(&["uint8".to_string()], &v));
			check!(outcome(got, want), "decode params");
		}
		1 => {
			let got = cli::run(args(&["decode", "function", ABI, "list", &odd]));
			let want = unhex(&odd).and_then(|d| ethabi::decode(&[T::Address], &d).ok()).map(|v| lines(&["address".to_string()], &v));
			check!(outcome(got, want), "decode function");
		}
		2 => {
			// white space around a topic and 0x before it are left open
			if (front && x == "0x") || x.bytes().all(|c| matches!(c, b' ' | b'\n' | b'\r' | b'\t')) {
				rt::done();
			}
			let got = cli::run(args(&["decode", "log", ABI, "Anon", "-l", z, "-l", &odd, z]));
			check!(outcome(got, None), "a topic of another length");
		}
		_ => {
			let h = gen::over(64, b"0123456789abcdefABCDEF");
			let got = cli::run(args(&["decode", "params", &string(h.clone()), "-t", "bytes32"]));
			let low: Vec<u8> = h.iter().map(|c| c.to_ascii_lowercase()).collect();
			check!(outcome(got, Some([&b"bytes32 "[..], &low].concat())), "decode params");
		}
	}
}
/// each of the functions of larger ABI files (19 types, overloads alike in all but one type or the outputs, names alike, up to 13 parameters) selected by signature, and by name: the one meant, or an error if the name is not unique; encode with fitting values, one of them with a value of another or one value too few, and decode with one digit arbitrary
fn c20_functions() {
	let (name, ins, outs, n, file) = rt::pick(wide::FUNCTIONS);
	let (ins, outs) = (types(ins), types(outs));
	let by_name = rt::choose(2) == 0;
	let sel = if by_name {
		name.to_string()
	} else if outs.is_empty() {
		spec::cat(&[name, "(", &joined(&ins), ")"])
	} else {
		spec::cat(&[name, "(", &joined(&ins), "):(", &joined(&outs), ")"])
	};
	let f = gen::function(name, &ins, &outs);
	let one = !by_name || n == 1;
	if rt::choose(2) == 0 {
		let w = rt::choose(6);
		let lenient = rt::choose(2) == 1;
		let mut a = args(&["encode", "function", file, &sel]);
		let mut want = vec![];
		for (i, t) in ins.iter().enumerate() {
			let (s, v) = fits(t, w + i);
			a.push("-p".into());
			a.push(s);
			want.push(v);
		}
		if lenient {
			a.push("--lenient".into());
		}
		let want = if one { f.encode_input(&want).ok().map(|b| spec::hex(&b, false)) } else { None };
		check!(outcome(cli::run(a), want), "encode function");
	} else {
		let mut sh = gen::shape(&[&[3]], &[&[1]]);
		sh.zero = true;
		let mut h = spec::hex(&spec::enc(&sh.values(&outs)), false);
		digits(&mut h);
		let d = string(h);
		let want = if one { unhex(&d).and_then(|d| f.decode_output(&d).ok()).map(|v| lines(&outs.iter().map(spec::name).collect::<Vec<_>>(), &v)) } else { None };
		check!(outcome(cli::run(args(&["decode", "function", file, &sel, &d])), want), "decode function");
	}
}
/// each of the events of the same files (the same types indexed and not, overloads, names alike, parameters without names, anonymous or not) selected by signature and by name; topics and data as emitted with one digit of a topic or of the data arbitrary
fn c20_events() {
	let (name, anonymous, ps, n, file) = rt::pick(wide::EVENTS);
	let e = event(name, anonymous, ps);
	let by_name = rt::choose(2) == 0;
	let ts: Vec<T> = e.inputs.iter().map(|p| p.kind.clone()).collect();
	let sel = if by_name { name.to_string() } else { spec::cat(&[name, "(", &joined(&ts), ")"]) };
	let mut topics: Vec<Vec<u8>> = vec![];
	if !anonymous {
		topics.push(spec::hex(&crate::c12::sig(&e).0, false));
	}
	for (i, p) in e.inputs.iter().enumerate() {
		if p.indexed {
			let mut w = vec![b'0'; 64];
			w[63] = b'0' + (i % 2) as u8;
			topics.push(w);
		}
	}
	let ts: Vec<T> = e.inputs.iter().filter(|p| !p.indexed).map(|p| p.kind.clone()).collect();
	let mut sh = gen::shape(&[&[3]], &[&[1]]);
	sh.zero = true;
	let mut h = spec::hex(&spec::enc(&sh.values(&ts)), false);
	match rt::choose(3) {
		0 => digits(&mut h),
		1 if !topics.is_empty() => {
			let i = rt::choose(topics.len());
			digits(&mut topics[i]);
		}
		_ => {
			topics.pop();
		}
	}
	let mut a = args(&["decode", "log", file, &sel]);
	let mut hashes = vec![];
	for t in topics {
		hashes.push(ethabi::ethereum_types::H256::from_slice(&unhex(&string(t.clone())).unwrap()));
		a.push("-l".into());
		a.push(string(t));
	}
	a.push(string(h.clone()));
	let want = if by_name && n > 1 {
		None
	} else {
		e.parse_log(RawLog { topics: hashes, data: unhex(&string(h)).unwrap() }).ok().map(|l| {
			let labels: Vec<String> = l.params.iter().map(|p| p.name.clone()).collect();
			let v: Vec<Token> = l.params.iter().map(|p| p.value.clone()).collect();
			lines(&labels, &v)
		})
	};
	check!(outcome(cli::run(a), want), "decode log");
}
}
