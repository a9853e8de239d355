//! Which keys are trust anchors: what the crate says, and proofs rooted in the published keys (real,
//! recorded ones) and in others.
use crate::json::*;
use crate::keys;
use crate::obj;
use crate::rng::Rng;
use crate::wire::jn;
use crate::world::*;
use dnssec_prover::ser::*;
use dnssec_prover::validation::*;

const REAL: [&[u8]; 4] = [include_bytes!("../real_a.bin"), include_bytes!("../real_b.bin"), include_bytes!("../real_c.bin"), include_bytes!("../real_d.bin")];

fn split(b: &[u8]) -> Vec<Vec<u8>> {
	let (mut v, mut p) = (Vec::new(), 0);
	while p < b.len() {
		let s = p;
		while b[p] != 0 { p += 1 + b[p] as usize; }
		p += 9;
		p += 2 + (b[p] as usize * 256 + b[p + 1] as usize);
		v.push(b[s..p].to_vec());
	}
	v
}
/// Flags giving a key of ours the tag of a published one.
fn forge(r: &mut Rng) -> Option<(i64, u16, u16, u8)> {
	let want = *r.pick(&[20326u16, 20326, 19036]);
	let kid = *r.pick(&[51i64, 52, 51, 2, 31, 41]);
	let alg = keys::key(kid).alg;
	(0..=0xffffu16).filter(|fl| fl & 256 != 0 && keys::key_tag(*fl, 3, alg, &keys::key(kid).public) == want).next().map(|fl| (kid, fl, want, alg))
}
fn swap_root(w: &mut World, kid: i64, fl: u16, tag: u16, alg: u8) {
	for i in 0..w.rd.len() {
		match &mut w.rd[i] {
			Rd::Key { kid: k, fl: f, alg: a, .. } if *k == 1 => { *k = kid; *f = fl; *a = alg; },
			Rd::Sig(s) if s.by == 1 => { s.by = kid; s.tag = tag; s.alg = alg; },
			_ => {},
		}
	}
}
pub fn gen(prof: &str, r: &mut Rng) -> J {
	if prof == "hints" { return obj! { "k" => s("hints") }; }
	if prof == "real" {
		let mut rs = split(REAL[r.below(4)]);
		let mut honest = true;
		let how = r.below(3);
		if how > 0 {
			if let Some((kid, fl, tag, alg)) = forge(r) {
				honest = false;
				let mut w = World::default();
				let root = w.name(&vec![]);
				let k = w.add(root, Rd::Key { kid, fl, pr: 3, alg });
				let sg = Sig { ct: 48, alg, lab: 0, ottl: 1000, exp: 1_800_000_000, inc: 1_600_000_000, tag, kn: root, by: kid, mh: true, on: root, set: vec![k] };
				w.add(root, Rd::Sig(sg));
				let own = split(&w.bytes(0));
				if how == 1 { rs.push(own[0].clone()); } // a key more than was signed
				else { // our keys instead of theirs
					rs.retain(|x| !(x[0] == 0 && (x[2] == 48 || x[2] == 46)));
					rs.extend(own);
				}
			}
		}
		r.shuffle(&mut rs);
		return obj! { "k" => s("real"), "honest" => J::Bool(honest), "p" => J::b(&rs.concat()) };
	}
	let mut c = crate::genval::gen(*r.pick(&["honest", "honest", "alg", "", "wild"]), r);
	if r.chance(3, 4) {
		if let Some((kid, fl, tag, alg)) = forge(r) {
			let mut w = World::from_json(&c);
			swap_root(&mut w, kid, fl, tag, alg);
			c = w.to_json();
		}
	}
	if r.chance(1, 3) {
		let mut w = World::from_json(&c);
		crate::genval::root_ds(&mut w, r);
		c = w.to_json();
	}
	c.set("k", s("world"));
	c
}
pub fn run(case: &J) -> J {
	let b = match case.s("k") {
		"hints" => {
			let v = root_hints().iter().map(|d| {
				let nm: Nm = d.name.as_str().split('.').filter(|l| !l.is_empty()).map(|l| l.as_bytes().to_vec()).collect();
				obj! { "n" => jn(&nm), "tag" => n(d.key_tag), "alg" => n(d.alg), "dt" => n(d.digest_type), "x" => J::b(&d.digest) }
			}).collect();
			return obj! { "res" => s("hints"), "ds" => J::Arr(v) };
		},
		"real" => case.at("p").bytes(),
		_ => World::from_json(case).bytes(0),
	};
	let rrs = match parse_rr_stream(&b) { Ok(r) => r, Err(()) => return obj! { "res" => s("parse_err") } };
	match verify_rr_stream(&rrs) {
		Ok(v) => obj! { "res" => s("ok"), "n" => n(v.verified_rrs.len() as i64) },
		Err(ValidationError::Invalid) => obj! { "res" => s("invalid") },
		Err(ValidationError::UnsupportedAlgorithm) => obj! { "res" => s("unsupported") },
	}
}
