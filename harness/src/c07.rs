use crate::{gen, rt, spec};
use ethabi::{Constructor, Event, EventParam, ParamType as T, Token};

fn call(name: &str, ts: &[T], v: &[Token]) {
	let f = gen::function(name, ts, &[]);
	let got = f.encode_input(v);
	let ok = spec::conform(v, ts);
	rt::reach(ok as u64);
	match got {
		Ok(b) => {
			check!(ok, "call data for arguments that do not conform");
			let mut want = rt::keccak(spec::signature(name, ts).as_bytes())[..4].to_vec();
			want.extend_from_slice(&spec::enc(v));
			check!(b.len() == want.len(), "length of the call data");
			check!(rt::same(&b, &want), "call data is not selector and encoded arguments");
		}
		Err(_) => check!(!ok, "conforming arguments rejected"),
	}
}
fn construct(code: Vec<u8>, ts: &[T], v: &[Token]) {
	let c = Constructor { inputs: gen::params(ts) };
	let ok = spec::conform(v, ts);
	rt::reach(2 + ok as u64);
	let mut want = code.clone();
	match c.encode_input(code, v) {
		Ok(b) => {
			check!(ok, "constructor data for arguments that do not conform");
			want.extend_from_slice(&spec::enc(v));
			check!(rt::same(&b, &want), "constructor data is not code and encoded arguments");
		}
		Err(_) => check!(!ok, "conforming arguments rejected"),
	}
}

harness! {
/// functions with every input list of up to 3 type nodes over 12 elementary types and conforming arguments with symbolic contents
fn c07_call() {
	let n = rt::choose(4);
	let ts = gen::list(n, gen::ALL, &[1, 2, 11]);
	let v = gen::shape(&[&[0], &[33, 1]], &[&[0], &[2, 1]]).values(&ts);
	call("f", &ts, &v);
}
/// functions and constructors with every input list of up to 3 type nodes over 12 elementary types and 4 over one per layout class; the arguments as declared, with one missing, added, all left out, in other order, or one node changed in kind, length or order
fn c07_changed() {
	let n = rt::choose(5);
	let ts = if n == 4 { gen::list(n, gen::FEW, &[2]) } else { gen::list(n, gen::ALL, &[2]) };
	let mut v = gen::shape(&[&[3]], &[&[2, 1]]).values(&ts);
	gen::altered(&mut v);
	if rt::choose(2) == 0 {
		construct(rt::bytes(3), &ts, &v);
	} else {
		call("f", &ts, &v);
	}
}
/// functions with names of 0..=12 symbolic ASCII characters, any other character between two letters, and several fixed names (with a parenthesis, longer than a hash block)
fn c07_names() {
	let name = gen::any_name(12);
	let ts = spec::tys(rt::pick(&["()", "(uint256)", "(bool,(string,bytes3[])[2],int64)", "((),address)"]));
	let v = gen::shape(&[&[2]], &[&[1]]).values(&ts);
	call(&name, &ts, &v);
}
/// integer widths and fixed byte sizes 1..=256 in the selector
fn c07_sizes() {
	let n = 1 + rt::choose(256);
	let ts = match rt::choose(3) {
		0 => vec![T::Uint(n), T::Int(n)],
		1 => vec![T::FixedBytes(n)],
		_ => vec![T::Int(n), T::Array(Box::new(T::Uint(n)))],
	};
	let v = gen::shape(&[&[2]], &[&[1]]).values(&ts);
	call("f", &ts, &v);
}
/// constructors with code of 0, 1, 31, 32, 33, 100 symbolic bytes and every argument list of up to 2 type nodes, conforming or one node changed
fn c07_constructor() {
	let n = rt::choose(3);
	let ts = gen::list(n, gen::ALL, &[1, 2]);
	let mut v = gen::shape(&[&[0], &[33, 1]], &[&[0], &[2, 1]]).values(&ts);
	gen::altered(&mut v);
	let n = rt::pick(&[0usize, 1, 31, 32, 33, 100]);
	construct(rt::bytes(n), &ts, &v);
}
/// textual signatures of functions with every input list of up to 2 nodes and every output list of up to 2 nodes, zero-size types included; names of up to 4 symbolic characters
fn c07_text() {
	let name = gen::text(rt::choose(5));
	let n = rt::choose(3);
	let ins = gen::list(n, &["uint256", "bytes5", "string", "()"], &[0, 10]);
	let n = rt::choose(3);
	let outs = gen::list(n, &["uint256", "bytes0", "string", "()"], &[0, 12]);
	let s = gen::function(&name, &ins, &outs).signature();
	rt::observe(s.as_bytes());
	let mut want = spec::signature(&name, &ins);
	if !outs.is_empty() {
		want.push(':');
		want.push_str(&spec::name(&T::Tuple(outs)));
	}
	check!(rt::same(s.as_bytes(), want.as_bytes()), "textual signature");
}
/// event signature hashes: every list of up to 3 nodes of inputs, indexed or not, anonymous or not; names symbolic up to 6 characters or fixed
fn c07_event() {
	let name = gen::any_name(6);
	let n = rt::choose(4);
	let ts = gen::list(n, &["uint256", "bytes32", "string"], &[2]);
	let mask = rt::choose(3);
	let inputs = ts.iter().enumerate().map(|(i, t)| EventParam { name: "x".into(), kind: t.clone(), indexed: (i + mask) % 3 == 0 }).collect();
	let e = Event { name: name.clone(), inputs, anonymous: rt::choose(2) == 1 };
	let h = e.signature();
	check!(rt::same(&h.0, &rt::keccak(spec::signature(&name, &ts).as_bytes())), "event signature hash");
}
/// functions, constructors and events with 0 to 257 parameters (sizes as in gen::many), as many arguments, one more or one fewer; names of as many characters
fn c07_many() {
	let n = gen::many();
	let e = spec::ty(rt::pick(&["bool", "string"]));
	let ts = vec![e; n];
	let mut name = "n".repeat(n);
	name.push_str(&gen::text(1));
	if rt::choose(4) == 0 {
		let inputs = ts.iter().map(|t| EventParam { name: String::new(), kind: t.clone(), indexed: false }).collect();
		let h = Event { name: name.clone(), inputs, anonymous: false }.signature();
		check!(rt::same(&h.0, &rt::keccak(spec::signature(&name, &ts).as_bytes())), "event signature hash");
		let f = gen::function(&name, &ts, &ts).signature();
		let mut want = spec::signature(&name, &ts);
		if n > 0 {
			want.push(':');
			want.push_str(&spec::name(&T::Tuple(ts)));
		}
		check!(rt::same(f.as_bytes(), want.as_bytes()), "textual signature");
		return;
	}
	let mut v = gen::shape(&[&[1]], &[&[1]]).values(&ts);
	match rt::choose(3) {
		0 => {}
		1 => v.push(Token::Bool(true)),
		_ => {
			v.pop();
		}
	}
	if rt::choose(2) == 0 {
		call(&name, &ts, &v);
	} else {
		construct(rt::bytes(n), &ts, &v);
	}
}
/// functions and constructors with 1..=24, 32 or 33 inputs of one type but one of another anywhere, also as a tuple; arguments right, or in reverse order
fn c07_odd() {
	let ts = gen::odd();
	let ts = if rt::choose(2) == 0 { ts } else { vec![T::Tuple(ts), T::Bool] };
	let mut v: Vec<Token> = ts.iter().map(|t| gen::sized(t, 3, 1)).collect();
	if rt::choose(2) == 1 {
		v.reverse();
	}
	if rt::choose(2) == 0 {
		call("f", &ts, &v);
	} else {
		construct(vec![1, 2, 3], &ts, &v);
	}
}
/// one large argument (gen::huge: byte strings of 300 to 100000 bytes, arrays, fixed arrays, tuples and lists of 300 to 4097 values), alone or between others; a name of 1025 characters, a constructor with one byte of code
fn c07_huge() {
	let (ts, v) = gen::huge();
	let which = rt::choose(2);
	let name = "n".repeat([1025, 1][which]);
	if which == 0 {
		call(&name, &ts, &v);
	} else {
		construct(vec![7; name.len()], &ts, &v);
	}
}
}
