//! The functions the WebAssembly wrapper exports, next to the library functions they wrap. A case is
//! a history of calls (fetch a query, hand in a response, finish) or bytes to verify; for each call
//! what the wrapper gave and what the library gives on the same input are recorded.
use crate::builder::{buf, concrete, gen as gen_msgs};
use crate::e2e::{question, E};
use crate::json::*;
use crate::obj;
use crate::rng::Rng;
use crate::wire::*;
use crate::world::*;
use dnssec_prover::query::*;
use dnssec_prover::rr::Name;
use dnssec_prover::ser::parse_rr_stream;
use dnssec_prover::validation::*;
use dnssec_prover_wasm as wp;

pub fn chars(t: &str) -> J { J::Arr(t.chars().map(|c| n(c as u32)).collect()) }
pub fn string(j: &J) -> String { j.arr().iter().map(|c| char::from_u32(c.int() as u32).unwrap()).collect() }
fn op(o: &str) -> J { obj! { "op" => s(o) } }

pub fn gen(prof: &str, r: &mut Rng) -> J {
	match prof {
		"bytes" => {
			let p = *r.pick(&["honest", "honest", "", "alg", "window", "malice"]);
			let mut c = crate::genval::gen(p, r);
			let how = if r.chance(1, 3) { r.range(1, 5) } else { 0 };
			c.set("how", n(how as i64)); c.set("dseed", n((r.u64() >> 40) as i64));
			c
		},
		"junk" => { let k = r.below(40); obj! { "bytes" => gen_parse(if k == 0 { "" } else { *r.pick(&["", "valid"]) }, r).at("b").clone() } },
		"name" => {
			let mut c = gen_namestr("", r).at("c").clone();
			if r.chance(1, 3) { let mut t = string(&c); if t.ends_with('.') { t.pop(); } c = chars(&t); }
			obj! { "name" => c, "ty" => n(gen_u16(r)), "ops" => J::Arr(vec![op("n"), op("n"), op("f")]), "seed" => n(1) }
		},
		"msgs" => { // whatever messages
			let g = gen_msgs("", r);
			let mut ops = vec![];
			for m in g.a("msgs") {
				for _ in 0..r.below(4) { ops.push(op("n")); }
				ops.push(obj! { "op" => s("b"), "b" => m.clone() });
			}
			for _ in 0..r.below(12) { ops.push(op(*r.pick(&["n", "t"]))); }
			ops.push(op("f"));
			let q = text(&nj(g.at("qn")));
			obj! { "name" => chars(&q), "ty" => g.at("qt").clone(), "ops" => J::Arr(ops), "seed" => n((r.u64() >> 40) as i64) }
		},
		_ => { // zones
			let mut e = E::make(if prof == "over" { "over" } else { *r.pick(&["", "", "max", "wild", "root"]) }, r);
			let mut t = show(&e.w.names[e.qn]);
			if r.chance(1, 2) && t.ends_with('.') { t.pop(); }
			let t: String = t.chars().map(|c| if r.chance(1, 8) { c.to_ascii_uppercase() } else { c }).collect();
			let mut ops = vec![];
			let style = r.below(4);
			for _ in 0..r.range(0, 60) {
				if r.chance(1, 2) { ops.push(op("n")); continue; }
				let how = match style { 0 => 0, _ => if r.chance(1, 3) { r.below(10) } else { 0 } };
				ops.push(obj! { "op" => s("e"), "k" => n(r.below(6) as i64), "how" => n(how as i64) });
			}
			if r.chance(5, 6) { // to the end
				for _ in 0..24 { ops.push(op("n")); ops.push(obj! { "op" => s("e"), "k" => n(r.below(6) as i64), "how" => n(0) }); }
			}
			ops.push(op("f"));
			let mut c = e.to_json();
			c.set("name", chars(&t)); c.set("ty", n(e.qt)); c.set("ops", J::Arr(ops));
			c
		},
	}
}

/// What the wrapper and the library say about bytes.
pub fn verdict(b: &[u8]) -> J {
	let c = wp::verify_byte_stream(b.to_vec());
	let lib = match parse_rr_stream(b) {
		Err(()) => obj! { "res" => s("invalid") },
		Ok(rrs) => match verify_rr_stream(&rrs) {
			Ok(v) => obj! { "res" => s("ok"), "vf" => pair(v.valid_from), "ex" => pair(v.expires), "ttl" => pair(v.max_cache_ttl as u64), "rrs" => J::Arr(v.verified_rrs.iter().map(|r| dump(r)).collect()) },
			Err(ValidationError::Invalid) => obj! { "res" => s("invalid") },
			Err(ValidationError::UnsupportedAlgorithm) => obj! { "res" => s("unsupported") },
		},
	};
	obj! { "c" => chars(&c), "lib" => lib }
}

pub fn lib_start(t: &str, ty: u16) -> Option<(ProofBuilder, QueryBuf)> {
	let q: Result<Name, ()> = t.to_string().try_into();
	q.ok().map(|q| ProofBuilder::new(&q, ty))
}
pub fn opt(b: Option<Vec<u8>>) -> J { match b { Some(b) => obj! { "some" => J::Bool(true), "b" => J::b(&b) }, None => obj! { "some" => J::Bool(false), "b" => J::Arr(vec![]) } } }

pub fn run(case: &J) -> J {
	if let Some(b) = case.get("bytes") { return obj! { "res" => s("ok"), "v" => verdict(&b.bytes()) }; }
	if case.get("ops").is_none() {
		let w = World::from_json(case);
		let mut b = w.bytes(case.get("cs").map(|x| x.int() as u64).unwrap_or(0));
		let was = b.clone();
		let mut r = Rng::new(case.i("dseed") as u64);
		match case.i("how") {
			1 => { let k = r.below(b.len() + 1); b.truncate(k); },
			2 => damage(&mut r, &mut b),
			3 => { let k = r.range(1, 12); let x = r.bytes(k); b.extend(x); },
			4 => { if !b.is_empty() { b.pop(); } },
			5 => b.clear(),
			_ => {},
		}
		let mut out = obj! { "res" => s("ok") };
		if b != was { out.set("before", verdict(&was)); } // what was verified before makes no difference
		out.set("v", verdict(&b));
		if b != was { out.set("after", verdict(&was)); }
		return out;
	}
	let (t, ty) = (string(case.at("name")), case.i("ty") as u16);
	let e = case.get("zones").map(|_| E::from_json(case));
	let rds = e.as_ref().map(|e| e.w.all_rdata());
	let mut r = Rng::new(case.i("seed") as u64);
	// The library, given the name as it is and with a dot more; and a second one which is not shown what the first refuses.
	let (as_is, dotted) = (lib_start(&t, ty), lib_start(&format!("{}.", t), ty));
	let lib = J::Arr([&as_is, &dotted].iter().map(|x| opt(x.as_ref().map(|x| x.1.to_vec()))).collect());
	let wb = wp::init_proof_builder(t.clone(), ty);
	let mut out = obj! { "res" => s("ok"), "lib" => lib, "init" => J::Bool(wb.is_some()) };
	let mut steps = vec![];
	let again = |x: bool| lib_start(&if x { t.clone() } else { format!("{}.", t) }, ty).map(|x| x.0);
	let dot = t.ends_with('.');
	let (l1, l2) = (again(dot), again(dot));
	if let (Some(mut wb), Some(mut l1), Some(mut l2)) = (wb, l1, l2) {
		let mut fetched: Vec<Vec<u8>> = vec![];
		let mut last: Vec<u8> = vec![];
		for o in case.a("ops") {
			let k = o.at("op").str().to_string();
			let m = match &k[..] {
				"n" => {
					let q = wp::get_next_query(&mut wb);
					if let Some(q) = &q { fetched.push(q.clone()); }
					let mut st = opt(q);
					st.set("op", s("n"));
					steps.push(st);
					continue;
				},
				"f" => break,
				"b" => o.at("b").bytes(),
				"t" => last.clone(),
				"x" => vec![0; 65536 + r.below(3) * 100],
				"p" => concrete(o.at("a"), &mut r),
				_ => { // an answer to an outstanding question
					let e = e.as_ref().unwrap();
					let how = o.i("how");
					let q = if fetched.is_empty() { let mut q = vec![0; 12]; q.extend([0, 0, 16, 0, 1]); q } else { let i = o.i("k") as usize % fetched.len(); if how == 0 { fetched.remove(i) } else { fetched[i].clone() } };
					let (qn, qt) = question(&q);
					let mut m = e.encode(&mut r, rds.as_ref().unwrap(), &qn, qt, &e.respond(&qn, qt));
					match how {
						1 => m.resize(65535, 0), 2 => m.resize(65536, 0), 3 => m.resize(65536 + r.range(1, 70000), 0), 4 => m.clear(),
						5 => { let k = r.below(m.len()); m.truncate(k); }, 6 => m[r.below(2)] = 7, 7 => m[3] = (m[3] & 0xf0) | 3, 8 => { let mut t = m.split_off(12); damage(&mut r, &mut t); m.extend(t); },
						9 => { m = last.clone(); },
						_ => {},
					}
					m
				},
			};
			let mut st = obj! { "op" => s("r"), "len" => pair(m.len() as u64) };
			let (mut res, mut qs) = ("none", vec![]);
			if m.len() <= 65535 {
				let b = buf(&m);
				let before = l1.awaiting_responses();
				match l1.process_response(&b) {
					Ok(q) => { res = "ok"; qs = q.iter().map(|q| J::b(q)).collect(); let _ = l2.process_response(&b); },
					Err(()) => { res = "err"; if before && !l1.awaiting_responses() { let _ = l2.process_response(&b); } },
				}
			}
			wp::process_query_response(&mut wb, m.clone());
			if !m.is_empty() { last = m; }
			st.set("lr", s(res)); st.set("q", J::Arr(qs));
			steps.push(st);
		}
		let proof = wp::get_unverified_proof(wb);
		let (p1, p2) = (l1.finish_proof().ok().map(|x| x.0), l2.finish_proof().ok().map(|x| x.0));
		let mut st = opt(proof.clone());
		st.set("op", s("f")); st.set("l1", opt(p1)); st.set("l2", opt(p2));
		steps.push(st);
		if let Some(p) = proof { out.set("v", verdict(&p)); }
	}
	out.set("steps", J::Arr(steps));
	out
}
