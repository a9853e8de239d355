//! Resolving names through CNAMEs and DNAMEs in a set of verified records.
use crate::json::*;
use crate::obj;
use crate::rng::Rng;
use crate::wire::*;
use crate::world::*;
use dnssec_prover::rr::*;
use dnssec_prover::validation::*;

fn pick_name(r: &mut Rng, prof: &str) -> Nm {
	if prof == "long" && r.chance(1, 2) { // lengths around the limit
		let mut v = nm(*r.pick(&["a", "b.a", "b", "a.b"]));
		let mut tl: usize = v.iter().map(|l| l.len() + 1).sum();
		let want = *r.pick(&[255usize, 254, 253, 252, 251, 250, 200, 128, 127, 129]);
		while tl < want { let l = (want - tl - 1).min(*r.pick(&[63usize, 1, 30])).max(1); if tl + l + 1 > 255 { break; } v.insert(0, vec![b'l'; l]); tl += l + 1; }
		return v;
	}
	let k = *r.pick(&[0usize, 1, 1, 2, 2, 3]);
	(0..k).map(|_| r.pick(&[&b"a"[..], b"b", b"xa", b"a", b"b", b"*", b"ab"]).to_vec()).collect()
}
pub fn gen(prof: &str, r: &mut Rng) -> J {
	let mut v = Vec::new();
	let k = match r.below(10) { 0 => 0, 1 => r.range(10, 20), _ => r.range(1, 7) };
	let mut last: Option<Nm> = None;
	for _ in 0..k {
		let o = match &last { Some(l) if r.chance(1, 3) => l.clone(), _ => pick_name(r, prof) };
		let t = pick_name(r, prof);
		let x = match r.below(if prof == "chain" { 3 } else { 5 }) {
			0 | 1 => { last = Some(t.clone()); obj! { "t" => n(5), "n" => jn(&o), "tn" => jn(&t) } },
			2 => { let c = cat("b", &t); if text(&c).len() <= 255 { last = Some(c); } obj! { "t" => n(39), "n" => jn(&o), "tn" => jn(&t) } },
			3 => obj! { "t" => n(16), "n" => jn(&o), "x" => J::b(&[b'0' + v.len() as u8]) },
			_ => obj! { "t" => n(1), "n" => jn(&o), "x" => J::b(&[1, 2, 3, v.len() as u8]) },
		};
		v.push(x);
	}
	if prof == "chain" && r.chance(1, 5) { return strip(r); }
	if prof == "chain" { // one long chain, perhaps closing on itself
		let k = *r.pick(&[3usize, 20, 60]);
		for i in 0..k {
			let (a, b) = (vec![format!("c{}", i).into_bytes()], vec![format!("c{}", i + 1).into_bytes()]);
			v.push(if r.chance(3, 4) { obj! { "t" => n(5), "n" => jn(&a), "tn" => jn(&b) } } else { obj! { "t" => n(5), "n" => jn(&a), "tn" => jn(&b) } });
		}
		v.push(obj! { "t" => n(1), "n" => jn(&vec![format!("c{}", k).into_bytes()]), "x" => J::b(&[1, 1, 1, 1]) });
		if r.chance(1, 3) { let p = r.below(k); v.push(obj! { "t" => n(5), "n" => jn(&vec![format!("c{}", k).into_bytes()]), "tn" => jn(&vec![format!("c{}", p).into_bytes()]) }); }
		r.shuffle(&mut v);
	}
	if prof != "chain" { // something to find, mostly
		for x in v.clone() { if let Some(t) = x.get("tn") { if r.chance(2, 3) {
			let t = nj(t);
			let o = if x.i("t") == 39 && r.chance(3, 4) { cat(*r.pick(&["b", "a", "b.b"]), &t) } else { t };
			if text(&o).len() <= 255 { v.push(obj! { "t" => n(16), "n" => jn(&o), "x" => J::b(&[b'A' + v.len() as u8]) }); }
		} } }
		r.shuffle(&mut v);
	}
	let q = if prof == "chain" { nm("c0") } else if r.chance(4, 5) && !v.is_empty() { let x = r.pick(&v[..]).clone(); let o = nj(x.at("n")); let c = cat(*r.pick(&["b", "b", "a", "b.b", "xa"]), &o); if r.chance(if x.i("t") == 39 { 9 } else { 1 }, 10) && text(&c).len() <= 255 { c } else { o } } else { pick_name(r, prof) };
	if r.chance(1, 8) && !v.is_empty() { let x = r.pick(&v[..]).clone(); v.push(x); }
	obj! { "rrs" => J::Arr(v), "q" => jn(&q) }
}
/// Very many steps with few records: a DNAME takes one label after another off a long name.
fn strip(r: &mut Rng) -> J {
	let long = |k: usize, z: &str| -> Nm { let mut v = vec![b"a".to_vec(); k]; v.extend(nm(z)); v };
	let stages = r.range(1, 3);
	let mut v = vec![];
	let ks: Vec<usize> = (0..stages).map(|_| *r.pick(&[1usize, 60, 99, 100, 101, 120, 125, 126])).collect();
	for i in 0..stages {
		let z = format!("z{}", i);
		v.push(obj! { "t" => n(39), "n" => jn(&long(1, &z)), "tn" => jn(&nm(&z)) });
		if i + 1 < stages { let z2 = format!("z{}", i + 1); v.push(obj! { "t" => n(5), "n" => jn(&nm(&z)), "tn" => jn(&long(ks[i + 1].min(125), &z2)) }); }
		else { v.push(obj! { "t" => n(16), "n" => jn(&nm(&z)), "x" => J::b(&[7]) }); }
	}
	for _ in 0..r.below(4) { let o = pick_name(r, ""); v.push(obj! { "t" => n(1), "n" => jn(&o), "x" => J::b(&[1, 2, 3, v.len() as u8]) }); }
	r.shuffle(&mut v);
	obj! { "rrs" => J::Arr(v), "q" => jn(&long(ks[0].min(125), "z0")) }
}
pub fn run(case: &J) -> J {
	let rrs: Vec<RR> = case.a("rrs").iter().map(build).collect();
	let v = VerifiedRRStream { verified_rrs: rrs.iter().collect(), valid_from: 0, expires: 1, max_cache_ttl: 1 };
	let q = name(case.at("q"));
	let mut got: Vec<i64> = v.resolve_name(&q).into_iter().map(|x| rrs.iter().position(|y| std::ptr::eq(x, y)).map(|i| i as i64 + 1).unwrap_or(0)).collect();
	got.sort();
	obj! { "res" => s("ok"), "got" => J::Arr(got.into_iter().map(J::Int).collect()) }
}
