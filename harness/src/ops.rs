//! Operations: how a case of each kind is made, and how it is run on the real crate.
use crate::json::*;
use crate::rng::Rng;
use crate::world::*;
use crate::obj;
use std::panic::{catch_unwind, AssertUnwindSafe};
#[cfg(dnssec_prover_verif)]
use std::sync::atomic::Ordering::Relaxed;
use dnssec_prover::ser::*;
use dnssec_prover::validation::*;

pub fn gen(kind: &str, r: &mut Rng) -> J {
	let (k, prof) = kind.split_once(':').unwrap_or((kind, ""));
	match k {
		"verify" => crate::genval::gen(prof, r),
		"parse" => crate::wire::gen_parse(prof, r),
		"write" => crate::wire::gen_write(prof, r),
		"name" => crate::wire::gen_namestr(prof, r),
		"json" => crate::wire::gen_json(prof, r),
		"cmp" => crate::wire::gen_cmp(prof, r),
		"signed" => crate::signed::gen(prof, r),
		"resolve" => crate::resolve::gen(prof, r),
		"order" => gen_order(prof, r),
		"anchors" => crate::anchors::gen(prof, r),
		"buffer" => crate::buffer::gen(prof, r),
		"builder" => crate::builder::gen(prof, r),
		"query" => crate::builder::gen_query(prof, r),
		"e2e" => crate::e2e::gen(prof, r),
		#[cfg(feature = "full")]
		"tcp" => crate::tcp::gen(prof, r),
		#[cfg(feature = "full")]
		"http" => crate::http::gen(prof, r),
		#[cfg(feature = "wasm")]
		"wasm" => crate::wasm::gen(prof, r),
		#[cfg(feature = "wasm")]
		"doh" => crate::doh::gen(prof, r),
		_ => panic!("harness: no generator {}", kind),
	}
}
pub fn run(kind: &str, case: &J) -> J {
	let k = kind.split(':').next().unwrap();
	let f = || match k {
		"verify" => verify(case),
		"parse" => crate::wire::parse(case),
		"write" => crate::wire::write(case),
		"name" => crate::wire::namestr(case),
		"json" => crate::wire::json(case),
		"cmp" => crate::wire::cmp(case),
		"signed" => crate::signed::run(case),
		"resolve" => crate::resolve::run(case),
		"order" => order(case),
		"anchors" => crate::anchors::run(case),
		"buffer" => crate::buffer::run(case),
		"builder" => crate::builder::run(case),
		"query" => crate::builder::run_query(case),
		"e2e" => crate::e2e::run(case),
		#[cfg(feature = "full")]
		"tcp" => crate::tcp::run(case),
		#[cfg(feature = "full")]
		"http" => crate::http::run(case),
		#[cfg(feature = "wasm")]
		"wasm" => crate::wasm::run(case),
		#[cfg(feature = "wasm")]
		"doh" => crate::doh::run(case),
		_ => panic!("harness: no operation {}", kind),
	};
	match catch_unwind(AssertUnwindSafe(f)) {
		Ok(j) => j,
		Err(e) => {
			let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
			if m.starts_with("harness:") { eprintln!("{}", m); std::process::exit(2); }
			obj! { "res" => s("panic"), "msg" => s(&m) }
		},
	}
}

pub fn verify(case: &J) -> J {
	let w = World::from_json(case);
	let bytes = w.bytes(case.get("cs").map(|x| x.int() as u64).unwrap_or(0));
	let rrs = match parse_rr_stream(&bytes) { Ok(r) => r, Err(()) => return obj! { "res" => s("parse_err") } };
	if rrs.len() != w.rrs.len() { return obj! { "res" => s("parse_count") }; }
	#[cfg(dnssec_prover_verif)]
	for c in [&verif::SIG_CHECKS, &verif::SIG_FAILURES, &verif::HASHES] { c.store(0, Relaxed); }
	let r = verify_rr_stream(&rrs);
	let mut o = match r {
		Ok(v) => {
			let mut idx = Vec::new();
			for rr in v.verified_rrs.iter() {
				let p = rrs.iter().position(|x| std::ptr::eq(x, *rr));
				idx.push(p.map(|i| i as i64 + 1).unwrap_or(0));
			}
			idx.sort();
			obj! { "res" => s("ok"), "rrs" => J::Arr(idx.into_iter().map(J::Int).collect()), "vf" => pair(v.valid_from), "ex" => pair(v.expires), "ttl" => pair(v.max_cache_ttl as u64) }
		},
		Err(ValidationError::Invalid) => obj! { "res" => s("invalid") },
		Err(ValidationError::UnsupportedAlgorithm) => obj! { "res" => s("unsupported") },
	};
	#[cfg(not(dnssec_prover_verif))]
	o.set("sc", n(0));
	#[cfg(dnssec_prover_verif)]
	for (k, c) in [("sc", &verif::SIG_CHECKS), ("sf", &verif::SIG_FAILURES), ("hs", &verif::HASHES)] { o.set(k, n(c.load(Relaxed).min(i32::MAX as u64) as i64)); }
	o
}

/// A proof presented in several ways.
pub fn gen_order(prof: &str, r: &mut Rng) -> J {
	let mut c = crate::genval::gen(prof, r);
	let v = (0..r.range(2, 4)).map(|_| J::Arr(vec![n((r.u64() >> 40) as i64), n(r.below(3) as i64), n(if r.chance(1, 2) { 0 } else { r.range(1, 1_000_000) as i64 })])).collect();
	c.set("ways", J::Arr(v));
	c
}
pub fn order(case: &J) -> J {
	let base = World::from_json(case);
	let mut out = Vec::new();
	for k in 0..=case.a("ways").len() {
		let mut w = base.clone();
		let mut cs = 0;
		if k > 0 {
			let way = case.a("ways")[k - 1].arr();
			let mut r = Rng::new(way[0].int() as u64);
			let m = w.rrs.len();
			let reps = match way[1].int() { 0 => 0, 1 => r.range(1, 3), _ => m };
			for _ in 0..reps { if m > 0 { let x = w.rrs[r.below(m)]; w.rrs.push(x); } }
			match r.below(4) {
				0 => w.rrs.reverse(),
				1 => { let q = r.below(w.rrs.len().max(1)); w.rrs.rotate_left(q); },
				_ => r.shuffle(&mut w.rrs),
			}
			cs = way[2].int() as u64;
		}
		let bytes = w.bytes(cs);
		let rrs = match parse_rr_stream(&bytes) { Ok(r) => r, Err(()) => { out.push(obj! { "res" => s("parse_err") }); continue; } };
		out.push(match verify_rr_stream(&rrs) {
			Ok(v) => {
				let rs = v.verified_rrs.iter().map(|rr| match rrs.iter().position(|x| std::ptr::eq(x, *rr)) {
					Some(p) => { let (o, d) = w.rrs[p]; J::Arr(vec![n(o as i64 + 1), n(w.rd[d].ty()), n(d as i64 + 1)]) },
					None => J::Arr(vec![]),
				}).collect();
				obj! { "res" => s("ok"), "rs" => J::Arr(rs), "vf" => pair(v.valid_from), "ex" => pair(v.expires), "ttl" => pair(v.max_cache_ttl as u64) }
			},
			Err(ValidationError::Invalid) => obj! { "res" => s("invalid") },
			Err(ValidationError::UnsupportedAlgorithm) => obj! { "res" => s("unsupported") },
		});
	}
	obj! { "res" => s("ok"), "v" => J::Arr(out) }
}
