use crate::{gen, rt, spec};
use ethabi::{ParamType as T, Token};

/// decoding by the function is decoding by its types
fn same(got: Result<Vec<Token>, ethabi::Error>, ts: &[T], data: &[u8]) {
	match (got, ethabi::decode(ts, data)) {
		(Ok(g), Ok(w)) => {
			rt::reach(1);
			check!(spec::toks_eq(&g, &w), "other values");
		}
		(Err(_), Err(_)) => rt::reach(0),
		_ => check!(false, "another verdict"),
	}
}
fn tys(s: &str) -> Vec<T> {
	spec::tys(&spec::cat(&["(", s, ")"]))
}
fn both(f: &ethabi::Function, ins: &[T], outs: &[T], data: &[u8]) {
	if rt::choose(2) == 0 {
		same(f.decode_input(data), ins, data)
	} else {
		same(f.decode_output(data), outs, data)
	}
}
fn back(ins: &[T], outs: &[T], v: &[Token], w: &[Token]) {
	let f = gen::function("f", ins, outs);
	let call = f.encode_input(v);
	match &call {
		Ok(c) => {
			check!(c.len() >= 4, "no selector");
			match f.decode_input(&c[4..]) {
				Ok(g) => check!(spec::toks_eq(&g, v), "arguments"),
				Err(_) => check!(false, "call data that its own function does not decode"),
			}
		}
		Err(_) => check!(false, "conforming arguments"),
	}
	match f.decode_output(&ethabi::encode(w)) {
		Ok(g) => check!(spec::toks_eq(&g, w), "results"),
		Err(_) => check!(false, "results that the function does not decode"),
	}
	rt::reach(1);
}

harness! {
/// functions with inputs of every list of up to 3 type nodes and other outputs, and the other way around: conforming arguments and results, contents symbolic, are decoded as given
fn c22_back() {
	let a = gen::list(rt::choose(4), &["bool", "string", "uint256", "bytes3"], &[2]);
	if gen::zero_array(&a) {
		rt::done();
	}
	let b = tys(rt::pick(&["", "bool", "string", "uint8,address", "bytes[],(bool,string)"]));
	let mut sh = gen::shape(&[&[0], &[33, 3]], &[&[0], &[2, 1]]);
	let (v, w) = (sh.values(&a), sh.values(&b));
	if rt::choose(2) == 0 {
		back(&a, &b, &v, &w)
	} else {
		back(&b, &a, &w, &v)
	}
}
/// the same for 0 to 257 arguments and results (sizes as in gen::many), equal or different in number
fn c22_many() {
	let n = gen::many();
	let m = rt::pick(&[0, 1, n, n + 1]);
	let ty = |i: usize| if i % 3 == 2 { T::String } else { T::Uint(8) };
	let val = |i: usize| if i % 3 == 2 { Token::String("x".into()) } else { Token::Uint((i as u64).into()) };
	let (a, b): (Vec<_>, Vec<_>) = ((0..n).map(ty).collect(), (1..m + 1).map(ty).collect());
	let (v, w): (Vec<_>, Vec<_>) = ((0..n).map(val).collect(), (1..m + 1).map(val).collect());
	back(&a, &b, &v, &w);
}
/// every byte string of 0 to 68 bytes for functions with 9 pairs of input and output types: decoding input and output is decoding by the respective types, values and errors
fn c22_bytes() {
	let (a, b) = rt::pick(&[("", "bool"), ("bool", ""), ("uint8", "bool"), ("bool,bool", "bool"), ("address", "bytes4"), ("bytes", "uint256"), ("bytes20", "uint8[2]"), ("uint8[]", "bytes"), ("(bool,uint8)", "int8,bool")]);
	let (a, b) = (tys(a), tys(b));
	let f = gen::function(rt::pick(&["f", "", "decode"]), &a, &b);
	let n = rt::pick(&[0, 1, 4, 31, 32, 33, 36, 63, 64, 68]);
	both(&f, &a, &b, &rt::bytes(n));
}
/// encodings of the inputs or the outputs with the last byte of one word symbolic, whole or cut short by 1, 4 or 32 bytes, after 4 other bytes or followed by 32 others, decoded as either
fn c22_cross() {
	let (a, b) = rt::pick(&[("bool", "uint256"), ("string", "bytes"), ("bool,string", "string,bool"), ("uint8[]", "(bool,string)[]"), ("(bool,uint8)", "bool,uint8"), ("bytes33", "bytes32,bool"), ("", "string"), ("uint8[2]", "uint8,uint8"), ("string[2]", "string[]")]);
	let (a, b) = (tys(a), tys(b));
	let f = gen::function("f", &a, &b);
	let mut sh = gen::shape(&[&[3]], &[&[1]]);
	sh.zero = true;
	let mut e = spec::enc(&sh.values(if rt::choose(2) == 0 { &a } else { &b }));
	// the last byte of one of the words
	if !e.is_empty() {
		let w = rt::choose(e.len() / 32);
		e[32 * w + 31] = rt::arr::<1>()[0];
	}
	let cut = rt::pick(&[0, 1, 4, 32]).min(e.len());
	let mut d = match rt::choose(3) {
		0 => rt::pick(&[[0; 4], [0xff; 4], [0, 0, 0, 1]]).to_vec(),
		_ => vec![],
	};
	d.extend_from_slice(&e[..e.len() - cut]);
	if rt::choose(2) == 0 {
		d.extend_from_slice(&[rt::pick(&[0, 1]); 32]);
	}
	both(&f, &a, &b, &d);
}
/// the same whatever the mutability, the constant flag, parameter names and internal types
fn c22_flags() {
	let (a, b) = rt::pick(&[("bool,uint8", "bytes"), ("bytes", "uint8"), ("", "bool"), ("bool", "")]);
	let (a, b) = (tys(a), tys(b));
	let mut f = gen::function("f", &a, &b);
	f.constant = rt::choose(2) == 0;
	f.state_mutability = rt::pick(&[ethabi::StateMutability::Pure, ethabi::StateMutability::View, ethabi::StateMutability::NonPayable, ethabi::StateMutability::Payable]);
	let (n, i) = (rt::pick(&["", "a", "self"]), rt::pick(&[None, Some("struct S"), Some("")]));
	for p in f.inputs.iter_mut().chain(f.outputs.iter_mut()) {
		p.name = n.into();
		p.internal_type = i.map(|s| s.into());
	}
	let m = rt::pick(&[0, 4, 32, 36, 64]);
	both(&f, &a, &b, &rt::bytes(m));
	let mut sh = gen::shape(&[&[3]], &[&[1]]);
	let v = sh.values(&a);
	match f.encode_input(&v) {
		Ok(c) => check!(rt::same(&c[4..], &spec::enc(&v)) && rt::same(&c[..4], &rt::keccak(spec::signature("f", &a).as_bytes())[..4]), "call data"),
		Err(_) => check!(false, "conforming arguments"),
	}
}
}
