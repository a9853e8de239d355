//! What exactly a signature is made over: an RRset, a signature by a good key over some message
//! that is or is not its canonical form, and an otherwise complete proof around both.
use crate::json::*;
use crate::keys;
use crate::obj;
use crate::rng::Rng;
use crate::wire::*;
use crate::world::*;
use dnssec_prover::ser::*;
use dnssec_prover::validation::*;

pub fn key_rr(owner: &Nm, kid: i64, fl: u16) -> J {
	let k = keys::key(kid);
	obj! { "t" => n(48), "n" => jn(owner), "fl" => n(fl), "pr" => n(3), "alg" => n(k.alg), "x" => J::b(&k.public) }
}
fn tag_of(kid: i64, fl: u16) -> u16 { let k = keys::key(kid); keys::key_tag(fl, 3, k.alg, &k.public) }
pub fn ds_rr(owner: &Nm, kid: i64, fl: u16) -> J {
	let k = keys::key(kid);
	let mut d = wire_name(owner);
	d.extend(rdata(&key_rr(owner, kid, fl)));
	obj! { "t" => n(43), "n" => jn(owner), "tag" => n(tag_of(kid, fl)), "alg" => n(k.alg), "dt" => n(2), "x" => J::b(ring::digest::digest(&ring::digest::SHA256, &d).as_ref()) }
}
pub fn sig_rr(owner: &Nm, ct: u16, lab: u8, times: (u32, u32, u32), zone: &Nm, kid: i64, fl: u16) -> J {
	obj! { "t" => n(46), "n" => jn(owner), "ct" => n(ct), "alg" => n(keys::key(kid).alg), "lab" => n(lab), "ottl" => pair(times.0 as u64),
		"exp" => pair(times.1 as u64), "inc" => pair(times.2 as u64), "tag" => n(tag_of(kid, fl)), "kn" => jn(zone), "x" => J::Arr(vec![]) }
}
pub struct Opts { pub rev: bool, pub dup: bool, pub by_len: bool, pub ttl: Option<u32>, pub up_owner: bool, pub up_signer: bool, pub owner: Option<Nm>, pub class: u16, pub no_len: bool, pub up_rdata: bool, pub no_signer: bool, pub ct: Option<u16>, pub split: bool }
impl Opts { pub fn right() -> Opts { Opts { rev: false, dup: false, by_len: false, ttl: None, up_owner: false, up_signer: false, owner: None, class: 1, no_len: false, up_rdata: false, no_signer: false, ct: None, split: false } } }
/// RFC 4034 3.1.8.1, or nearly so.
pub fn message(g: &J, owner: &Nm, rds: &[Vec<u8>], o: &Opts) -> Vec<u8> {
	let up = |n: &Nm| -> Nm { n.iter().map(|l| l.to_ascii_uppercase()).collect() };
	let mut e = Enc::plain();
	let mut h = g.clone();
	h.set("x", J::Arr(vec![]));
	if o.up_signer { let k = up(&nj(g.at("kn"))); h.set("kn", jn(&k)); }
	e.rdata(&h);
	if o.no_signer { e.out.truncate(18); }
	let on = match &o.owner { Some(x) => x.clone(), None => {
		let lab = g.i("lab") as usize;
		if g.i("ct") != 47 && lab < owner.len() { cat("*", &trail(owner, lab)) } else { owner.clone() }
	} };
	let on = wire_name(&if o.up_owner { up(&on) } else { on });
	let mut v = rds.to_vec();
	v.sort();
	if !o.dup { v.dedup(); }
	if o.by_len { v.sort_by_key(|x| x.len()); }
	if o.rev { v.reverse(); }
	for r in v {
		let r = if o.up_rdata { r.to_ascii_uppercase() } else { r };
		e.out.extend(&on);
		e.out.extend_from_slice(&o.ct.unwrap_or(g.i("ct") as u16).to_be_bytes());
		e.out.extend_from_slice(&o.class.to_be_bytes());
		e.out.extend_from_slice(&o.ttl.unwrap_or(unpair(g.at("ottl")) as u32).to_be_bytes());
		if !o.no_len { e.out.extend_from_slice(&(r.len() as u16).to_be_bytes()); }
		e.out.extend(r);
	}
	e.out
}
pub fn finish(mut g: J, kid: i64, msg: &[u8]) -> J { g.set("x", J::b(&keys::sign(kid, msg))); g }
fn honest(set: &[J], times: (u32, u32, u32), zone: &Nm, kid: i64, fl: u16) -> J {
	let owner = nj(set[0].at("n"));
	let lab = if owner.first().map(|l| &l[..] == b"*") == Some(true) { owner.len() - 1 } else { owner.len() };
	let g = sig_rr(&owner, set[0].i("t") as u16, lab as u8, times, zone, kid, fl);
	let rds: Vec<Vec<u8>> = set.iter().map(rdata).collect();
	let m = message(&g, &owner, &rds, &Opts::right());
	finish(g, kid, &m)
}
/// The records that make a zone's key trusted.
pub fn chain(zone: &Nm, kid: i64, times: (u32, u32, u32)) -> Vec<J> {
	let root: Nm = vec![];
	let rk = key_rr(&root, 1, 257);
	let mut v = vec![rk.clone(), honest(&[rk], times, &root, 1, 257)];
	if !zone.is_empty() {
		let (d, k) = (ds_rr(zone, kid, 257), key_rr(zone, kid, 257));
		v.push(honest(&[d.clone()], times, &root, 1, 257)); v.push(d);
		v.push(honest(&[k.clone()], times, zone, kid, 257)); v.push(k);
	}
	v
}

pub fn gen(prof: &str, r: &mut Rng) -> J {
	let ottl = if r.chance(1, 2) { r.range(0, 100000) as u32 } else { *r.pick(&[604799u32, 604800, 604801, 3_600_000, 0x00ff_ffff, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, u32::MAX - 1, u32::MAX]) };
	let times = (ottl, 2_000_000_000 - r.below(1000) as u32, 1_000_000_000 + r.below(1000) as u32);
	let zone: Nm = match r.below(3) { 0 => vec![], 1 => nm("zz"), _ => nm("sub.zz") };
	let kid = if zone.is_empty() { 1 } else { *r.pick(&[2i64, 3, 31, 32, 41, 51, 52, 2, 3]) };
	// (sub.zz is delegated from the root directly: a zone may span several labels)
	let mut all = chain(&zone, kid, times);
	let t = *r.pick(&[1u16, 2, 5, 16, 16, 16, 28, 39, 52, 47, 50, 2, 52]);
	let t = match prof { "txtsplit" => 16, "nsecupper" => 47, _ => t };
	let mut owner = zone.clone();
	for _ in 0..r.range(if t == 50 { 1 } else { 0 }, 4) { let mut l = gen_label(r); if l.len() > 20 { l.truncate(20); } owner.insert(0, l); }
	if t == 50 { owner[0] = b32(&r.bytes(20)); }
	if owner.len() > zone.len() && t != 50 && t != 47 && r.chance(1, 10) { owner[0] = vec![b'*']; }
	let mut set: Vec<J> = Vec::new();
	let single = t == 5 || t == 39;
	while set.is_empty() || (!single && set.len() < 6 && r.chance(3, 5)) {
		let mut x = if !set.is_empty() && r.chance(1, 3) && set[0].get("x").is_some() { // close to one we have
			let mut x = r.pick(&set[..]).clone();
			let mut d = x.at("x").bytes();
			if t == 1 || t == 28 { let p = r.below(d.len()); d[p] = d[p].wrapping_add(1); } else { d.push(*r.pick(&[0u8, 255, 97])); }
			x.set("x", J::b(&d));
			x
		} else { gen_rr_at(r, t, &owner) };
		if t == 50 { // not a denial of anything here
			x.set("ha", n(7));
		}
		if prof == "txtsplit" { // the same text in other strings
			let d = x.at("x").bytes();
			let (mut o, mut p) = (Vec::new(), 0);
			while p < d.len() || r.chance(1, 3) { let k = r.range(0, 255.min(d.len() - p)); o.push(k as u8); o.extend_from_slice(&d[p..p + k]); p += k; }
			if o.len() > 60000 { continue; }
			x.set("raw", J::b(&o));
		}
		if prof == "nsecupper" { // RFC 6840 5.1: the next name is not put in lower case
			let nx: Nm = nj(x.at("next")).iter().map(|l| l.to_ascii_uppercase()).collect();
			let mut y = x.clone();
			y.set("next", jn(&nx));
			let raw = rdata(&y);
			x.set("raw", J::b(&raw));
		}
		set.push(x);
		if r.chance(1, 5) { let x = r.pick(&set[..]).clone(); set.push(x); }
	}
	let mut lab = owner.len();
	if owner.first().map(|l| &l[..] == b"*") == Some(true) { lab -= 1; }
	else if t != 47 && t != 50 && r.chance(1, 3) { lab = r.range(zone.len(), owner.len()); }
	if lab < owner.len() { // deny everything up to the next sibling
		let mut next = trail(&owner, zone.len() + 1);
		next[0].push(b'~');
		let ns = obj! { "t" => n(47), "n" => jn(&zone), "next" => jn(&next), "types" => J::Arr(vec![n(2), n(46), n(47)]) };
		if t == 47 { lab = owner.len(); } else { all.push(honest(&[ns.clone()], times, &zone, kid, 257)); all.push(ns); }
	}
	let g = sig_rr(&owner, t, lab as u8, times, &zone, kid, 257);
	let rds: Vec<Vec<u8>> = set.iter().map(rdata).collect();
	let mut o = Opts::right();
	let mut h = g.clone();
	let mut v = rds.clone();
	let sent_ttl = r.range(1, 100000) as u32;
	let what = r.below(44);
	match what {
		0 => o.rev = true, 1 => o.dup = true, 2 => o.by_len = true, 3 => o.ttl = Some(sent_ttl), 4 => o.up_owner = true, 5 => o.up_signer = true,
		6 => o.owner = Some(owner.clone()), 7 => o.owner = Some(cat("*", &trail(&owner, lab.min(owner.len().saturating_sub(1))))),
		8 => o.class = *r.pick(&[0, 3, 255]), 9 => o.no_len = true, 10 => o.up_rdata = true, 11 => o.no_signer = true, 12 => o.ct = Some(gen_u16(r)),
		13 => { h.set("ottl", pair(sent_ttl as u64)); }, 14 => h.set("exp", pair(times.1 as u64 + 1)), 15 => h.set("inc", pair(times.2 as u64 - 1)),
		16 => h.set("tag", n((g.i("tag") + 1) & 0xffff)), 17 => h.set("alg", n((g.i("alg") + 1) & 0xff)), 18 => h.set("lab", n((lab as i64 + 1) & 0xff)),
		19 => h.set("ct", n(1 + (t & 1))), 20 => { v.pop(); }, 21 => { let x = r.bytes(4); v.push(x); },
		22 => { let k = r.below(v.len()); damage(r, &mut v[k]); },
		23 => { v.remove(0); v.push(rds[rds.len() - 1].clone()); },
		24 => { if t == 16 { // the same text in other strings
			for x in v.iter_mut() { let d: Vec<u8> = set[0].at("x").bytes(); if d.len() > 1 { let mut y = vec![1, d[0], (d.len() - 1) as u8]; y.extend(&d[1..]); if d.len() < 250 { *x = y; } } }
		} },
		25 => { h.set("kn", jn(&cat("q", &zone))); },
		26 => { o.owner = Some(trail(&owner, lab)); },
		_ => {},
	}
	let mut msg = message(&h, &owner, &v, &o);
	if what == 27 { damage(r, &mut msg); }
	if what == 28 { msg.pop(); }
	if what == 29 { msg.push(0); }
	if what == 30 { msg = msg.split_off(r.below(19)); }
	let g = finish(g, kid, &msg);
	let mut send = all;
	let extra = obj! { "t" => n(16), "n" => jn(&zone), "x" => J::b(b"extra") };
	if !(t == 16 && owner == zone) && !set.iter().any(|x| x.i("t") == 5 && owner == zone) { send.push(honest(&[extra.clone()], times, &zone, kid, 257)); send.push(extra); }
	send.extend(set.iter().cloned());
	send.push(g.clone());
	r.shuffle(&mut send);
	let mut e = Enc::new(r);
	e.upper = *r.pick(&[0, 3, 10]);
	for x in &send {
		// Letter case is free in owner, signer and the names in these types only.
		let u = e.upper;
		if x.i("t") == 47 { e.upper = 0; }
		let ttl = if r.chance(1, 2) { sent_ttl } else { gen_u32(r) };
		e.rr(x, ttl);
		e.upper = u;
	}
	let mut gg = g.clone();
	gg.set("x", J::Arr(vec![]));
	if !prof.is_empty() {
		let set = set.into_iter().map(|x| if let J::Obj(v) = x { J::Obj(v.into_iter().filter(|(k, _)| k != "raw").collect()) } else { x }).collect();
		return obj! { "g" => gg, "n" => jn(&owner), "set" => J::Arr(set), "raw" => J::Arr(rds.iter().map(|x| J::b(x)).collect()), "msg" => J::b(&msg), "p" => J::b(&e.out), "what" => n(what as i64) };
	}
	obj! { "g" => gg, "n" => jn(&owner), "set" => J::Arr(set), "msg" => J::b(&msg), "p" => J::b(&e.out), "what" => n(what as i64) }
}
pub fn run(case: &J) -> J {
	let b = case.at("p").bytes();
	let rrs = match parse_rr_stream(&b) { Ok(r) => r, Err(()) => return obj! { "res" => s("parse_err") } };
	let (owner, t) = (case.at("n"), case.at("g").i("ct"));
	match verify_rr_stream(&rrs) {
		Ok(v) => {
			let got: Vec<J> = v.verified_rrs.iter().map(|r| dump(r)).filter(|x| x.i("t") == t && x.at("n") == owner).collect();
			obj! { "res" => s("ok"), "set" => J::Arr(got) }
		},
		Err(ValidationError::Invalid) => obj! { "res" => s("invalid") },
		Err(ValidationError::UnsupportedAlgorithm) => obj! { "res" => s("unsupported") },
	}
}
