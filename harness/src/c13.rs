use crate::c12::sig;
use crate::{gen, rt, spec};
use ethabi::{ethereum_types::H256, Event, EventParam, ParamType as T, RawLog, Token};

fn event(ts: &[T], ix: &[bool], anonymous: bool) -> Event {
	Event { name: "Ev".into(), inputs: ts.iter().zip(ix).enumerate().map(|(i, (t, x))| EventParam { name: spec::dec(i), kind: t.clone(), indexed: *x }).collect(), anonymous }
}
/// parsing accepts exactly the logs that belong to the event, and gives their values
fn exact(e: &Event, topics: &[[u8; 32]], data: &[u8]) {
	let got = e.parse_log(RawLog { topics: topics.iter().map(|t| H256(*t)).collect(), data: data.to_vec() });
	rt::reach(got.is_ok() as u64);
	let want = expected(e, topics, data);
	match (got, want) {
		(Ok(l), Some(w)) => {
			let got: Vec<Token> = l.params.into_iter().map(|p| p.value).collect();
			check!(spec::toks_eq(&got, &w), "values are not the log's");
		}
		(Err(_), None) => {}
		(Ok(_), None) => check!(false, "a log that does not belong to the event is accepted"),
		(Err(_), Some(_)) => check!(false, "a log of the event is rejected"),
	}
}
fn expected(e: &Event, topics: &[[u8; 32]], data: &[u8]) -> Option<Vec<Token>> {
	let mut topics = topics;
	if !e.anonymous {
		let s = sig(e);
		if topics.is_empty() || !rt::same(&topics[0], &s.0) {
			return None;
		}
		topics = &topics[1..];
	}
	let ix: Vec<&EventParam> = e.inputs.iter().filter(|p| p.indexed).collect();
	if ix.len() != topics.len() {
		return None;
	}
	let mut tv = vec![];
	for (p, t) in ix.iter().zip(topics) {
		let k = if spec::hashed(&p.kind) { T::FixedBytes(32) } else { p.kind.clone() };
		tv.push(spec::Dec { data: t, fuel: 10, exhausted: false }.value(&k, 0, 0)?);
	}
	let dt: Vec<T> = e.inputs.iter().filter(|p| !p.indexed).map(|p| p.kind.clone()).collect();
	let dv = spec::Dec { data, fuel: 1000, exhausted: false }.list(&dt, 0)?;
	let (mut tv, mut dv) = (tv.into_iter(), dv.into_iter());
	Some(e.inputs.iter().map(|p| if p.indexed { tv.next().unwrap() } else { dv.next().unwrap() }).collect())
}
fn topics(n: usize) -> Vec<[u8; 32]> {
	(0..n).map(|_| rt::arr::<32>()).collect()
}

harness! {
/// events with every list of up to 2 type nodes over 9 elementary types, every choice of indexed ones, anonymous or not; 0..=3 arbitrary topics; no data
fn c13_topics() {
	let n = rt::choose(3);
	let ts = gen::list(n, crate::c12::LEAVES, &[2]);
	let ix: Vec<bool> = ts.iter().map(|_| rt::choose(2) == 1).collect();
	let e = event(&ts, &ix, rt::choose(2) == 1);
	let t = topics(rt::choose(4));
	exact(&e, &t, &[]);
}
/// the same with arbitrary data of 31, 32, 64 and 96 bytes, and the first topic the signature hash or arbitrary
fn c13_data() {
	let n = 1 + rt::choose(2);
	let ts = gen::list(n, &["uint256", "bool", "bytes5", "bytes"], &[1]);
	let ix: Vec<bool> = ts.iter().map(|_| rt::choose(2) == 1).collect();
	let e = event(&ts, &ix, rt::choose(2) == 1);
	let mut t = topics(rt::choose(4));
	if !t.is_empty() && rt::choose(2) == 1 {
		t[0] = sig(&e).0;
	}
	let n = rt::pick(&[31usize, 32, 64, 96]);
	let data = rt::bytes(n);
	exact(&e, &t, &data);
}
/// events with 3 parameters of several kinds, every choice of indexed ones; signature hash or not; 0..=5 arbitrary topics; the data arbitrary of 32, 64 or 96 bytes
fn c13_three() {
	let ts = spec::tys(rt::pick(&["(bool,uint256,bytes)", "(address,string,bool[])", "(bytes4,(bool,uint8),int8)", "(uint8[2],bytes32,bool)"]));
	let m = rt::choose(8);
	let ix: Vec<bool> = (0..3).map(|i| m >> i & 1 == 1).collect();
	let e = event(&ts, &ix, rt::choose(2) == 1);
	rt::ascii(true);
	let mut t = topics(rt::choose(6));
	if !t.is_empty() {
		t[0] = sig(&e).0;
	}
	let n = rt::pick(&[32usize, 64, 96]);
	let data = rt::bytes(n);
	exact(&e, &t, &data);
}
/// a signature hash that differs in any way (any bytes, in particular any single bit) from the event's is rejected
fn c13_foreign() {
	let ts = spec::tys(rt::pick(&["()", "(uint256)", "(bool,string)"]));
	let ix: Vec<bool> = ts.iter().map(|_| rt::choose(2) == 1).collect();
	let e = event(&ts, &ix, false);
	let v = gen::shape(&[&[3]], &[&[1]]).values(&ts);
	let mut t = vec![rt::arr::<32>()];
	let mut d = vec![];
	for ((x, k), i) in v.iter().zip(&ts).zip(&ix) {
		if *i {
			t.push(if spec::hashed(k) { rt::arr::<32>() } else { spec::topic(x, k) });
		} else {
			d.push(x.clone());
		}
	}
	let r = e.parse_log(RawLog { topics: t.iter().map(|t| H256(*t)).collect(), data: spec::enc(&d) });
	let own = rt::same(&t[0], &sig(&e).0);
	check!(r.is_ok() == own, "accepted exactly when the first topic is the signature hash");
	rt::reach(own as u64);
}
/// signature hashes of other events: other names (symbolic, up to 4 characters) and other parameter types than the event's
fn c13_other() {
	let ts = spec::tys("(uint256,bytes)");
	let e = event(&ts, &[true, false], false);
	let name = gen::text(rt::choose(5));
	let us = spec::tys(rt::pick(&["(uint256,bytes)", "(uint8,bytes)", "(uint256,string)", "(uint256)", "((uint256,bytes))", "(uint256,bytes,bool)"]));
	let h = rt::keccak(spec::signature(&name, &us).as_bytes());
	let same = rt::same(name.as_bytes(), b"Ev") && us.len() == 2 && us == ts;
	let mut d = spec::num_word(32).to_vec();
	d.extend_from_slice(&spec::num_word(0));
	let r = e.parse_log(RawLog { topics: vec![H256(h), H256(rt::arr())], data: d });
	check!(r.is_ok() == same, "a log of another event is accepted");
	rt::reach(same as u64);
}
/// 0 to 257 arbitrary topics (sizes as in gen::many), one, two or as many indexed parameters, anonymous or not
fn c13_many() {
	let n = gen::many();
	let k = rt::pick(&[0, 1, 2, 3, n]);
	let e = event(&vec![T::Uint(256); k], &vec![true; k], rt::choose(2) == 1);
	let mut t = topics(n);
	if n > 0 && rt::choose(2) == 1 {
		t[0] = sig(&e).0;
	}
	exact(&e, &t, &[]);
}
/// anonymous events with a number of every declared width (any 64-bit number), indexed or not; 0 to 2 arbitrary topics; arbitrary data of 0, 31, 32 and 64 bytes
fn c13_widths() {
	let ts = vec![gen::wide(), gen::wide()];
	let ix: Vec<bool> = ts.iter().map(|_| rt::choose(2) == 1).collect();
	let e = event(&ts, &ix, true);
	let t = topics(rt::choose(3));
	let n = rt::pick(&[0usize, 31, 32, 64]);
	let data = rt::bytes(n);
	exact(&e, &t, &data);
}
}
