//! Abstract cases ("worlds"): the records of a proof as the specification sees them, with symbolic
//! keys, digests and signatures, and their concretisation into real wire bytes. Nothing in here
//! uses the crate under test: encoding, canonical forms, digests and signatures are independent.

use crate::json::*;
use crate::keys;
use crate::obj;
use std::collections::HashMap;

pub type Nm = Vec<Vec<u8>>; // labels, leftmost first; the root is empty

pub const T_A: u16 = 1; pub const T_NS: u16 = 2; pub const T_CNAME: u16 = 5; pub const T_TXT: u16 = 16;
pub const T_AAAA: u16 = 28; pub const T_DNAME: u16 = 39; pub const T_DS: u16 = 43; pub const T_RRSIG: u16 = 46;
pub const T_NSEC: u16 = 47; pub const T_DNSKEY: u16 = 48; pub const T_NSEC3: u16 = 50; pub const T_TLSA: u16 = 52;

pub fn nm(s: &str) -> Nm {
	s.split('.').filter(|l| !l.is_empty()).map(|l| l.as_bytes().to_vec()).collect()
}
pub fn show(n: &Nm) -> String {
	if n.is_empty() { return ".".into(); }
	n.iter().map(|l| String::from_utf8_lossy(l).to_string() + ".").collect()
}
pub fn lower(n: &Nm) -> Nm { n.iter().map(|l| l.to_ascii_lowercase()).collect() }
pub fn wire_name(n: &Nm) -> Vec<u8> {
	let mut o = Vec::new();
	for l in n { o.push(l.len() as u8); o.extend_from_slice(l); }
	o.push(0);
	o
}
pub fn trail(n: &Nm, k: usize) -> Nm { n[n.len() - k..].to_vec() }
pub fn under(n: &Nm, z: &Nm) -> bool { n.len() >= z.len() && n[n.len() - z.len()..] == z[..] }
pub fn cat(l: &str, z: &Nm) -> Nm { let mut n = nm(l); n.extend_from_slice(z); n }
/// RFC 4034 section 6.1 order.
pub fn name_cmp(a: &Nm, b: &Nm) -> std::cmp::Ordering {
	let (ra, rb): (Vec<_>, Vec<_>) = (a.iter().rev().map(|l| l.to_ascii_lowercase()).collect(), b.iter().rev().map(|l| l.to_ascii_lowercase()).collect());
	ra.cmp(&rb)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Sig {
	pub ct: u16, pub alg: u8, pub lab: u8, pub ottl: u32, pub exp: u32, pub inc: u32, pub tag: u16, pub kn: usize,
	/// Signing key (0: garbage bytes), and what was signed: whether the signed header is this
	/// record's own, the owner name, and the set of rdata (indices).
	pub by: i64, pub mh: bool, pub on: usize, pub set: Vec<usize>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Rd {
	B(u16, Vec<u8>),                    // A, AAAA, TXT (content), TLSA (rdata)
	N(u16, usize),                      // NS, CNAME, DNAME
	Key { kid: i64, fl: u16, pr: u8, alg: u8 },
	Ds { tag: u16, alg: u8, dt: u8, okey: usize, on: usize, cut: i8 },  // okey: rdata index of the key, usize::MAX: garbage; cut: digest bytes missing (< 0) or added
	Sig(Sig),
	Nsec { next: usize, types: Vec<u16> },
	Nsec3 { ha: u8, fl: u8, it: u16, salt: Vec<u8>, nh: Vec<u8>, types: Vec<u16> },
}
pub const NONE: usize = usize::MAX;
impl Rd {
	pub fn ty(&self) -> u16 {
		match self {
			Rd::B(t, _) | Rd::N(t, _) => *t, Rd::Key { .. } => T_DNSKEY, Rd::Ds { .. } => T_DS, Rd::Sig(_) => T_RRSIG,
			Rd::Nsec { .. } => T_NSEC, Rd::Nsec3 { .. } => T_NSEC3,
		}
	}
}
#[derive(Clone, Debug, Default)]
pub struct World {
	pub names: Vec<Nm>,
	pub rd: Vec<Rd>,
	pub rrs: Vec<(usize, usize)>, // owner name, rdata
	/// Free-form extras copied into the case (e.g. the scenario it came from).
	pub note: String,
}

pub fn bitmap(types: &[u16]) -> Vec<u8> {
	let mut t = types.to_vec();
	t.sort(); t.dedup();
	let mut o = Vec::new();
	let mut i = 0;
	while i < t.len() {
		let w = t[i] >> 8;
		let mut bits = vec![];
		while i < t.len() && t[i] >> 8 == w {
			let b = (t[i] & 0xff) as usize;
			if bits.len() <= b / 8 { bits.resize(b / 8 + 1, 0u8); }
			bits[b / 8] |= 0x80 >> (b % 8);
			i += 1;
		}
		o.push(w as u8); o.push(bits.len() as u8); o.extend(bits);
	}
	o
}
pub fn txt_rdata(x: &[u8]) -> Vec<u8> {
	if x.is_empty() { return vec![0]; }
	let mut o = Vec::new();
	for c in x.chunks(255) { o.push(c.len() as u8); o.extend_from_slice(c); }
	o
}
pub fn b32(d: &[u8]) -> Vec<u8> {
	let al = b"0123456789abcdefghijklmnopqrstuv";
	let (mut o, mut acc, mut nb) = (Vec::new(), 0u32, 0);
	for b in d {
		acc = (acc << 8) | *b as u32; nb += 8;
		while nb >= 5 { nb -= 5; o.push(al[((acc >> nb) & 31) as usize]); }
	}
	if nb > 0 { o.push(al[((acc << (5 - nb)) & 31) as usize]); }
	o
}
pub fn nsec3_hash(n: &Nm, it: u16, salt: &[u8]) -> Vec<u8> {
	let mut d = wire_name(&lower(n));
	d.extend_from_slice(salt);
	let mut h = ring::digest::digest(&ring::digest::SHA1_FOR_LEGACY_USE_ONLY, &d).as_ref().to_vec();
	for _ in 0..it {
		h.extend_from_slice(salt);
		h = ring::digest::digest(&ring::digest::SHA1_FOR_LEGACY_USE_ONLY, &h).as_ref().to_vec();
	}
	h
}

impl World {
	pub fn name(&mut self, n: &Nm) -> usize {
		let n = lower(n);
		if let Some(i) = self.names.iter().position(|x| *x == n) { return i; }
		self.names.push(n);
		self.names.len() - 1
	}
	pub fn rdi(&mut self, r: Rd) -> usize {
		if let Some(i) = self.rd.iter().position(|x| *x == r) { return i; }
		self.rd.push(r);
		self.rd.len() - 1
	}
	pub fn add(&mut self, owner: usize, r: Rd) -> usize {
		let i = self.rdi(r);
		self.rrs.push((owner, i));
		i
	}
	pub fn key_tag(&self, r: &Rd) -> u16 {
		if let Rd::Key { kid, fl, pr, alg } = r { keys::key_tag(*fl, *pr, *alg, &keys::key(*kid).public) } else { panic!() }
	}
	/// Sets of rdata at (owner, type).
	pub fn set(&self, owner: usize, ty: u16) -> Vec<usize> {
		let mut v: Vec<usize> = self.rrs.iter().filter(|(o, r)| *o == owner && self.rd[*r].ty() == ty).map(|x| x.1).collect();
		v.sort(); v.dedup();
		v
	}
	/// The canonical rdata, given the concrete signatures computed so far.
	fn rdata(&self, i: usize, sigs: &HashMap<usize, Vec<u8>>) -> Vec<u8> {
		match &self.rd[i] {
			Rd::B(T_TXT, x) => txt_rdata(x),
			Rd::B(_, x) => x.clone(),
			Rd::N(_, t) => wire_name(&self.names[*t]),
			Rd::Key { kid, fl, pr, alg } => {
				let mut o = fl.to_be_bytes().to_vec();
				o.push(*pr); o.push(*alg); o.extend_from_slice(&keys::key(*kid).public);
				o
			},
			Rd::Ds { tag, alg, dt, okey, on, cut } => {
				let mut o = tag.to_be_bytes().to_vec();
				o.push(*alg); o.push(*dt);
				let mut d = Vec::new();
				if *okey != NONE {
					d = wire_name(&self.names[*on]);
					d.extend(self.rdata(*okey, sigs));
				}
				use ring::digest::*;
				let mut h = match dt {
					1 => digest(&SHA1_FOR_LEGACY_USE_ONLY, &d), 4 => digest(&SHA384, &d), _ => digest(&SHA256, &d),
				}.as_ref().to_vec();
				if *okey == NONE { for b in h.iter_mut() { *b ^= 0x55; } h[0] ^= (i as u8) << 1; }
				if *cut < 0 { h.truncate(h.len().saturating_sub(-(*cut as i64) as usize)); } else { h.extend(std::iter::repeat(0).take(*cut as usize)); }
				o.extend(h);
				o
			},
			Rd::Sig(s) => {
				let mut o = self.sig_header(s, false);
				o.extend(wire_name(&self.names[s.kn]));
				o.extend_from_slice(sigs.get(&i).map(|v| &v[..]).unwrap_or(&[]));
				o
			},
			Rd::Nsec { next, types } => { let mut o = wire_name(&self.names[*next]); o.extend(bitmap(types)); o },
			Rd::Nsec3 { ha, fl, it, salt, nh, types } => {
				let mut o = vec![*ha, *fl];
				o.extend_from_slice(&it.to_be_bytes());
				o.push(salt.len() as u8); o.extend_from_slice(salt);
				o.push(nh.len() as u8); o.extend_from_slice(nh);
				o.extend(bitmap(types));
				o
			},
		}
	}
	fn sig_header(&self, s: &Sig, tweak: bool) -> Vec<u8> {
		let mut o = s.ct.to_be_bytes().to_vec();
		o.push(s.alg); o.push(s.lab);
		o.extend_from_slice(&s.ottl.to_be_bytes());
		o.extend_from_slice(&s.exp.to_be_bytes());
		o.extend_from_slice(&(if tweak { s.inc ^ 1 } else { s.inc }).to_be_bytes());
		o.extend_from_slice(&s.tag.to_be_bytes());
		o
	}
	/// The bytes a signature is made over: RFC 4034 section 3.1.8.1.
	fn message(&self, s: &Sig, sigs: &HashMap<usize, Vec<u8>>) -> Vec<u8> {
		let mut m = self.sig_header(s, !s.mh);
		m.extend(wire_name(&self.names[s.kn]));
		let mut rds: Vec<Vec<u8>> = s.set.iter().map(|r| self.rdata(*r, sigs)).collect();
		rds.sort(); rds.dedup();
		for r in rds {
			m.extend(wire_name(&self.names[s.on]));
			m.extend_from_slice(&s.ct.to_be_bytes());
			m.extend_from_slice(&1u16.to_be_bytes());
			m.extend_from_slice(&s.ottl.to_be_bytes());
			m.extend_from_slice(&(r.len() as u16).to_be_bytes());
			m.extend(r);
		}
		m
	}
	pub fn all_rdata(&self) -> Vec<Vec<u8>> {
		let mut sigs = HashMap::new();
		for (i, r) in self.rd.iter().enumerate() {
			if let Rd::Sig(s) = r {
				let v = if s.by == 0 { let mut g = vec![0x5a; 64]; g[0] = i as u8; g } else { keys::sign_as(s.by, s.alg, &self.message(s, &sigs)) };
				sigs.insert(i, v);
			}
		}
		(0..self.rd.len()).map(|i| self.rdata(i, &sigs)).collect()
	}
	/// The proof as wire bytes. `case_seed` != 0 varies the case of letters in owner names.
	pub fn bytes(&self, case_seed: u64) -> Vec<u8> {
		let rds = self.all_rdata();
		let mut o = Vec::new();
		let mut r = crate::rng::Rng::new(case_seed);
		for (owner, rd) in &self.rrs {
			let mut w = wire_name(&self.names[*owner]);
			if case_seed != 0 {
				let mut i = 0;
				while w[i] != 0 {
					let l = w[i] as usize;
					for b in &mut w[i + 1..i + 1 + l] { if b.is_ascii_lowercase() && r.chance(1, 3) { *b = b.to_ascii_uppercase(); } }
					i += l + 1;
				}
			}
			o.extend(w);
			o.extend_from_slice(&self.rd[*rd].ty().to_be_bytes());
			o.extend_from_slice(&1u16.to_be_bytes());
			o.extend_from_slice(&(3600u32 + (case_seed as u32 & 0xff)).to_be_bytes());
			o.extend_from_slice(&(rds[*rd].len() as u16).to_be_bytes());
			o.extend_from_slice(&rds[*rd]);
		}
		o
	}
	/// Hashes of the names a denial proof may be needed for, under each parameter set in use.
	fn hashes(&mut self) -> J {
		let mut params = Vec::new();
		for r in &self.rd {
			if let Rd::Nsec3 { it, salt, .. } = r { if *it <= 2600 && !params.contains(&(*it, salt.clone())) { params.push((*it, salt.clone())); } }
		}
		let mut v = Vec::new();
		if params.is_empty() { return J::Arr(v); }
		let mut need = Vec::new();
		for (o, r) in self.rrs.clone() {
			if let Rd::Sig(s) = &self.rd[r] {
				let n = self.names[o].clone();
				if (s.lab as usize) < n.len() {
					let x = trail(&n, s.lab as usize + 1);
					let x = self.name(&x);
					if !need.contains(&x) { need.push(x); }
				}
			}
		}
		for x in need {
			for (it, salt) in &params {
				v.push(obj! { "n" => n(x as i64 + 1), "it" => n(*it), "salt" => J::b(salt), "h" => J::b(&nsec3_hash(&self.names[x], *it, salt)) });
			}
		}
		J::Arr(v)
	}
	pub fn to_json(&mut self) -> J {
		let h = self.hashes();
		// The signed names and proof names must be in the table: make sure of the wildcard forms.
		let idx = |i: usize| if i == NONE { n(0) } else { n(i as i64 + 1) };
		let rds = self.rd.iter().map(|r| match r {
			Rd::B(_, x) => obj! { "k" => s("b"), "x" => J::b(x) },
			Rd::N(_, t) => obj! { "k" => s("n"), "tn" => idx(*t) },
			Rd::Key { kid, fl, pr, alg } => obj! { "k" => s("key"), "kid" => n(*kid), "fl" => n(*fl), "pr" => n(*pr), "alg" => n(*alg), "tag" => n(self.key_tag(r)) },
			Rd::Ds { tag, alg, dt, okey, on, cut } => obj! { "k" => s("ds"), "tag" => n(*tag), "alg" => n(*alg), "dt" => n(*dt), "okey" => idx(*okey), "on" => idx(*on), "cut" => n(*cut as i64) },
			Rd::Sig(g) => obj! { "k" => s("sig"), "ct" => n(g.ct), "alg" => n(g.alg), "lab" => n(g.lab), "ottl" => pair(g.ottl as u64),
				"exp" => pair(g.exp as u64), "inc" => pair(g.inc as u64), "tag" => n(g.tag), "kn" => idx(g.kn), "by" => n(g.by),
				"mh" => J::Bool(g.mh), "on" => idx(g.on), "set" => J::Arr(g.set.iter().map(|i| idx(*i)).collect()) },
			Rd::Nsec { next, types } => obj! { "k" => s("nsec"), "next" => idx(*next), "types" => J::Arr(types.iter().map(|t| n(*t)).collect()) },
			Rd::Nsec3 { ha, fl, it, salt, nh, types } => obj! { "k" => s("nsec3"), "ha" => n(*ha), "fl" => n(*fl), "it" => n(*it),
				"salt" => J::b(salt), "nh" => J::b(nh), "types" => J::Arr(types.iter().map(|t| n(*t)).collect()) },
		}).collect();
		let rrs = self.rrs.iter().map(|(o, r)| J::Arr(vec![n(*o as i64 + 1), n(self.rd[*r].ty()), n(*r as i64 + 1)])).collect();
		let names = self.names.iter().map(|x| J::Arr(x.iter().map(|l| J::b(l)).collect())).collect();
		obj! { "names" => J::Arr(names), "rd" => J::Arr(rds), "rrs" => J::Arr(rrs), "h" => h }
	}
	pub fn from_json(j: &J) -> World {
		let ui = |j: &J| { let i = j.int(); if i == 0 { NONE } else { i as usize - 1 } };
		let u16s = |j: &[J]| -> Vec<u16> { j.iter().map(|t| t.int() as u16).collect() };
		let mut w = World::default();
		w.names = j.a("names").iter().map(|x| x.arr().iter().map(|l| l.bytes()).collect()).collect();
		let rrs: Vec<(usize, u16, usize)> = j.a("rrs").iter().map(|r| { let a = r.arr(); (ui(&a[0]), a[1].int() as u16, ui(&a[2])) }).collect();
		let rds = j.a("rd");
		for (i, r) in rds.iter().enumerate() {
			let g = |k: &str| r.i(k);
			w.rd.push(match r.s("k") {
				"b" | "n" => {
					let ty = rrs.iter().find(|x| x.2 == i).map(|x| x.1).or(r.get("ty").map(|t| t.int() as u16)).unwrap_or(if r.s("k") == "b" { T_TXT } else { T_CNAME });
					if r.s("k") == "b" { Rd::B(ty, r.at("x").bytes()) } else { Rd::N(ty, ui(r.at("tn"))) }
				},
				"key" => Rd::Key { kid: g("kid"), fl: g("fl") as u16, pr: g("pr") as u8, alg: g("alg") as u8 },
				"ds" => Rd::Ds { tag: g("tag") as u16, alg: g("alg") as u8, dt: g("dt") as u8, okey: ui(r.at("okey")), on: ui(r.at("on")), cut: g("cut") as i8 },
				"sig" => Rd::Sig(Sig { ct: g("ct") as u16, alg: g("alg") as u8, lab: g("lab") as u8, ottl: unpair(r.at("ottl")) as u32,
					exp: unpair(r.at("exp")) as u32, inc: unpair(r.at("inc")) as u32, tag: g("tag") as u16, kn: ui(r.at("kn")), by: g("by"),
					mh: *r.at("mh") == J::Bool(true), on: ui(r.at("on")), set: r.a("set").iter().map(|x| ui(x)).collect() }),
				"nsec" => Rd::Nsec { next: ui(r.at("next")), types: u16s(r.a("types")) },
				"nsec3" => Rd::Nsec3 { ha: g("ha") as u8, fl: g("fl") as u8, it: g("it") as u16, salt: r.at("salt").bytes(), nh: r.at("nh").bytes(), types: u16s(r.a("types")) },
				k => panic!("harness: rdata kind {}", k),
			});
		}
		w.rrs = rrs.iter().map(|r| (r.0, r.2)).collect();
		w
	}
}
