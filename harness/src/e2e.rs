//! Whole exchanges: signed zones, a resolver that answers truthfully for them, the builder asking it,
//! and the verifier looking at what was built. What the right answers are is decided by Zone.tla, which
//! also checks that the resolver here told the truth.
use crate::builder::{buf, Msg};
use crate::json::*;
use crate::keys;
use crate::obj;
use crate::rng::Rng;
use crate::wire::jn;
use crate::world::*;
use dnssec_prover::query::*;
use dnssec_prover::rr::Name;
use dnssec_prover::ser::parse_rr_stream;
use dnssec_prover::validation::*;
use std::collections::HashMap;

#[derive(Clone)]
struct Zn { apex: Nm, ksk: (i64, usize), zsks: Vec<(i64, usize)>, n3: Option<(u16, Vec<u8>)> }
/// A record of some zone: its owner, its data.
#[derive(Clone)]
struct Rec { z: usize, o: usize, rd: usize }
#[derive(Default, Clone)]
pub struct Resp { pub an: Vec<(usize, usize)>, pub au: Vec<(usize, usize)> }

/// A behaviour of E2EMC.tla: parents, zones that sign the answer, order of responses.
pub struct Tree { par: Vec<usize>, signers: Vec<usize> }
pub struct E { pub w: World, zones: Vec<Zn>, recs: Vec<Rec>, pub qn: usize, pub qt: u16, main: Resp, h: Vec<(usize, u16, Vec<u8>)>, pub seed: u64, times: bool }

fn star(n: &Nm) -> bool { n.first().map(|l| &l[..] == b"*").unwrap_or(false) }
fn text_len(n: &Nm) -> usize { if n.is_empty() { 1 } else { n.iter().map(|l| l.len() + 1).sum() } }

impl E {
	fn zone_of(&self, n: &Nm) -> usize {
		let mut best = 0;
		for (i, z) in self.zones.iter().enumerate() { if under(n, &z.apex) && z.apex.len() >= self.zones[best].apex.len() { best = i; } }
		best
	}
	fn parent_of(&self, z: usize) -> usize { self.zone_of(&self.zones[z].apex[1..].to_vec()) }
	fn at(&self, z: usize, n: &Nm, ty: u16) -> Vec<usize> {
		let o = match self.w.names.iter().position(|x| x == n) { Some(o) => o, None => return vec![] };
		let mut v: Vec<usize> = self.recs.iter().filter(|r| r.z == z && r.o == o && self.w.rd[r.rd].ty() == ty).map(|r| r.rd).collect();
		v.sort(); v.dedup(); v
	}
	fn sigs(&self, z: usize, n: &Nm, ty: u16) -> Vec<usize> {
		self.at(z, n, T_RRSIG).into_iter().filter(|r| if let Rd::Sig(s) = &self.w.rd[*r] { s.ct == ty } else { false }).collect()
	}
	/// Whether the name exists in the zone, if only as an empty non-terminal.
	fn exists(&self, z: usize, n: &Nm) -> bool { *n == self.zones[z].apex || self.recs.iter().any(|r| r.z == z && under(&self.w.names[r.o], n) && !matches!(self.w.rd[r.rd], Rd::Nsec3 { .. }) && self.hashed(r.rd).is_none()) }
	/// Signatures over NSEC3 do not make names exist either.
	fn hashed(&self, rd: usize) -> Option<()> { if let Rd::Sig(s) = &self.w.rd[rd] { if s.ct == T_NSEC3 { return Some(()); } } None }
	fn add(&mut self, z: usize, n: &Nm, rd: Rd) -> bool {
		let o = self.w.name(n);
		let rd = self.w.rdi(rd);
		if self.recs.iter().any(|r| r.z == z && r.o == o && r.rd == rd) { return false; }
		self.recs.push(Rec { z, o, rd });
		true
	}
	/// Signs what the zone has at (n, ty).
	fn sign(&mut self, r: &mut Rng, z: usize, n: &Nm, ty: u16) {
		let set = self.at(z, n, ty);
		let zn = self.zones[z].clone();
		let mut ks: Vec<(i64, usize)> = if ty == T_DNSKEY { vec![zn.ksk] } else if zn.zsks.is_empty() { vec![zn.ksk] } else { vec![*r.pick(&zn.zsks)] };
		if ty == T_DNSKEY && r.chance(1, 4) { ks.extend(zn.zsks.iter().take(1)); }
		if ty != T_DNSKEY && zn.zsks.len() > 1 && r.chance(1, 6) { ks = zn.zsks.clone(); }
		let lab = if star(n) { n.len() - 1 } else { n.len() };
		for (kid, krd) in ks {
			let alg = keys::key(kid).alg;
			let (inc, exp) = (1_600_000_000 + r.below(1000) as u32, 1_900_000_000 + r.below(1000) as u32);
			let s = Sig { ct: ty, alg, lab: lab as u8, ottl: *r.pick(&[0u32, 60, 3600, 86400, 604800]), exp, inc, tag: self.w.key_tag(&self.w.rd[krd]), kn: self.w.name(&zn.apex), by: kid, mh: true, on: self.w.name(n), set: set.clone() };
			self.add(z, n, Rd::Sig(s));
		}
	}
	/// RFC 1034 section 4.3.2 and RFC 6672 section 3.2, or nothing where the answer is not positive.
	fn lookup(&mut self, qn: &Nm, qt: u16) -> Option<Resp> {
		let mut res = Resp::default();
		let mut n = qn.clone();
		for _ in 0..12 {
			let z = self.zone_of(&n);
			let apex = self.zones[z].apex.clone();
			let o = self.w.name(&n);
			if let Some(d) = (apex.len()..n.len()).map(|k| trail(&n, k)).find(|d| !self.at(z, d, T_DNAME).is_empty()) {
				let dn = self.w.name(&d);
				for t in [self.at(z, &d, T_DNAME), self.sigs(z, &d, T_DNAME)].concat() { res.an.push((dn, t)); }
				let to = if let Rd::N(_, t) = self.w.rd[self.at(z, &d, T_DNAME)[0]] { self.w.names[t].clone() } else { return None };
				let mut m = n[..n.len() - d.len()].to_vec();
				m.extend(to);
				if text_len(&m) > 255 { return None; }
				let t = self.w.name(&m);
				let c = self.w.rdi(Rd::N(T_CNAME, t));
				res.an.push((o, c));
				n = m;
				continue;
			}
			let (src, wild) = if self.exists(z, &n) { (n.clone(), false) } else {
				let ce = (apex.len()..n.len()).rev().map(|k| trail(&n, k)).find(|d| self.exists(z, d))?;
				(cat("*", &ce), true)
			};
			let ty = if !self.at(z, &src, qt).is_empty() { qt } else if !self.at(z, &src, T_CNAME).is_empty() { T_CNAME } else { return None };
			let rds = self.at(z, &src, ty);
			for t in rds.iter().cloned().chain(self.sigs(z, &src, ty)) { res.an.push((o, t)); }
			if wild {
				let nc = trail(&n, src.len());
				for (o, t) in self.denial(z, &nc)? { if !res.au.contains(&(o, t)) { res.au.push((o, t)); } }
			}
			if ty == qt { return Some(res); }
			if let Rd::N(_, t) = self.w.rd[rds[0]] { n = self.w.names[t].clone(); }
		}
		None
	}
	/// The records of the zone showing that nothing is at nc.
	fn denial(&mut self, z: usize, nc: &Nm) -> Option<Vec<(usize, usize)>> {
		let recs: Vec<Rec> = self.recs.iter().filter(|r| r.z == z).cloned().collect();
		if let Some((it, salt)) = self.zones[z].n3.clone() {
			let h = nsec3_hash(nc, it, &salt);
			let i = self.w.name(nc);
			if !self.h.contains(&(i, it, salt.clone())) { self.h.push((i, it, salt.clone())); }
			for r in &recs {
				if let Rd::Nsec3 { nh, .. } = &self.w.rd[r.rd] {
					let own = &self.w.names[r.o][0];
					let (lo, hi, x) = (own.clone(), b32(nh).to_ascii_lowercase(), b32(&h).to_ascii_lowercase());
					let within = if lo < hi { lo < x && x < hi } else { x > lo || x < hi };
					if within {
						let n = self.w.names[r.o].clone();
						return Some([vec![r.rd], self.sigs(z, &n, T_NSEC3)].concat().into_iter().map(|t| (r.o, t)).collect());
					}
				}
			}
		} else {
			for r in &recs {
				if let Rd::Nsec { next, .. } = &self.w.rd[r.rd] {
					let (a, b) = (&self.w.names[r.o], &self.w.names[*next]);
					let within = name_cmp(a, nc).is_lt() && (name_cmp(nc, b).is_lt() || *b == self.zones[z].apex);
					if within {
						let n = a.clone();
						return Some([vec![r.rd], self.sigs(z, &n, T_NSEC)].concat().into_iter().map(|t| (r.o, t)).collect());
					}
				}
			}
		}
		None
	}
	/// No data under aliases, one alias at a name and nothing beside it, no names under DNAMEs.
	fn sane(&self) -> bool {
		for r in &self.recs {
			let n = &self.w.names[r.o];
			if text_len(n) > 250 { return false; }
			let t = self.w.rd[r.rd].ty();
			if t == T_DS { if self.zone_of(n) == 0 && n.is_empty() || self.parent_of(self.zone_of(n)) != r.z { return false; } }
			else if self.zone_of(n) != r.z { return false; }
			if t == T_CNAME && self.recs.iter().any(|x| x.o == r.o && x.rd != r.rd) { return false; }
			if t == T_DNAME && (star(n) || self.recs.iter().any(|x| (x.o == r.o && x.rd != r.rd && matches!(self.w.rd[x.rd].ty(), T_CNAME | T_DNAME)) || (x.o != r.o && under(&self.w.names[x.o], n)))) { return false; }
			if t == T_DNAME && self.zones.iter().any(|z| z.apex.len() > n.len() && under(&z.apex, n)) { return false; }
			if n.iter().skip(1).any(|l| &l[..] == b"*") { return false; }
		}
		true
	}
	fn below(r: &mut Rng, z: &Nm, lo: usize, hi: usize) -> Nm {
		let mut n = z.clone();
		for _ in 0..r.range(lo, hi) { n = cat(*r.pick(&["!", "a", "b", "c", "ab", "ba", "z", "0", "-", "com", "xcom", "_tcp", "m", "zz", "y"]), &n); }
		n
	}
	fn leaf(r: &mut Rng, w: &mut World, ty: u16) -> Rd {
		match ty {
			T_A => Rd::B(T_A, r.bytes(4)), T_AAAA => Rd::B(T_AAAA, r.bytes(16)),
			T_TXT => { let k = *r.pick(&[0usize, 1, 20, 255, 256, 300]); Rd::B(T_TXT, vec![r.u64() as u8; k]) },
			T_TLSA => { let k = r.range(3, 20); Rd::B(T_TLSA, r.bytes(k)) },
			_ => { let n = Self::below(r, &vec![], 1, 2); Rd::N(T_NS, w.name(&n)) },
		}
	}
	fn attempt(prof: &str, r: &mut Rng, tree: Option<&Tree>) -> Option<E> {
		let mut e = E { w: World::default(), zones: vec![], recs: vec![], qn: 0, qt: *r.pick(&[T_TXT, T_A, T_AAAA, T_TLSA]), main: Resp::default(), h: vec![], seed: 0, times: false };
		// Zones and their keys
		let nz = if let Some(t) = tree { t.par.len() + 1 } else { match prof { "max" => 5, "over" => 6, "root" => 1, "twonsec" => 2, "tcp" => r.range(1, 3), _ => r.range(1, 5) } };
		for i in 0..nz {
			let apex = if i == 0 { vec![] } else if prof == "twonsec" { vec![b"com".to_vec()] } else {
				let p = if let Some(t) = tree { t.par[i - 1] } else if (prof == "max" || prof == "over") && r.chance(2, 3) { i - 1 } else { r.below(i) };
				let hi = if tree.is_none() && r.chance(1, 6) { 2 } else { 1 };
				Self::below(r, &e.zones[p].apex.clone(), 1, hi)
			};
			if e.zones.iter().any(|z| z.apex == apex) { return None; }
			let n3 = if prof != "twonsec" && r.chance(1, 2) { let k = *r.pick(&[0usize, 4, 8]); Some((*r.pick(&[0u16, 0, 1, 10]), r.bytes(k))) } else { None };
			let mut kids: Vec<i64> = vec![if i == 0 { 1 } else if r.chance(1, 12) { *r.pick(&[31, 41, 51]) } else { 2 + 4 * i as i64 }];
			if r.chance(1, 2) { kids.push(if r.chance(1, 12) { *r.pick(&[32, 52]) } else { 3 + 4 * i as i64 }); if r.chance(1, 6) { kids.push(4 + 4 * i as i64); } }
			let ks: Vec<(i64, usize)> = kids.iter().enumerate().map(|(j, k)| (*k, e.w.rdi(Rd::Key { kid: *k, fl: if j == 0 { 257 } else { 256 }, pr: 3, alg: keys::key(*k).alg }))).collect();
			e.zones.push(Zn { apex, ksk: ks[0], zsks: ks[1..].to_vec(), n3 });
		}
		for z in 0..nz {
			let zn = e.zones[z].clone();
			for (_, rd) in std::iter::once(&zn.ksk).chain(&zn.zsks) { let rd = e.w.rd[*rd].clone(); e.add(z, &zn.apex, rd); }
			if r.chance(1, 2) { let x = Self::leaf(r, &mut e.w, T_NS); e.add(z, &zn.apex, x); }
			if z > 0 {
				let p = e.parent_of(z);
				let on = e.w.name(&zn.apex);
				let (tag, alg) = (e.w.key_tag(&e.w.rd[zn.ksk.1]), keys::key(zn.ksk.0).alg);
				e.add(p, &zn.apex, Rd::Ds { tag, alg, dt: 2, okey: zn.ksk.1, on, cut: 0 });
				if r.chance(1, 12) { e.add(p, &zn.apex, Rd::Ds { tag, alg, dt: *r.pick(&[1, 4]), okey: zn.ksk.1, on, cut: 0 }); }
			}
		}
		// What is asked for, and aliases leading there
		let place = |e: &mut E, r: &mut Rng, lo: usize, at: Option<usize>| -> Option<(usize, Nm, Nm)> { // zone, owner, name it answers for
			let z = if let Some(z) = at { z } else if nz > 1 && r.chance(2, 3) { r.range(1, nz - 1) } else { r.below(nz) };
			let apex = e.zones[z].apex.clone();
			let (src, n) = if r.chance(1, if prof == "wild" { 1 } else { 3 }) {
				let b = Self::below(r, &apex, 0, 1);
				let n = Self::below(r, &b, 1, 2);
				if e.zone_of(&n) != z { return None; }
				(cat("*", &b), n)
			} else { let n = Self::below(r, &apex, lo, 2); (n.clone(), n) };
			if e.zone_of(&src) != z { return None; }
			Some((z, src, n))
		};
		let cur = if prof == "twonsec" { // both zones' NSECs at com.
			let at = |t: &[&str]| -> Nm { t.iter().map(|l| l.as_bytes().to_vec()).collect() };
			let x = Self::leaf(r, &mut e.w, e.qt);
			e.add(1, &at(&["*", "com"]), x);
			let t = e.w.name(&at(&["!", "com"]));
			e.add(0, &at(&["*"]), Rd::N(T_CNAME, t));
			let x = Self::leaf(r, &mut e.w, T_A);
			let last = at(&[*r.pick(&["z", "zz", "y"])]);
			e.add(0, &last, x);
			at(&[*r.pick(&["m", "d", "dd"])])
		} else {
			let (z, src, mut cur) = place(&mut e, r, 0, tree.map(|t| t.signers[0]))?;
			for _ in 0..*r.pick(&[1usize, 1, 2]) { let x = Self::leaf(r, &mut e.w, e.qt); e.add(z, &src, x); }
			if let Some(t) = tree { for z in &t.signers[1..] {
				let (z, src, n) = place(&mut e, r, 1, Some(*z))?;
				let t = e.w.name(&cur);
				e.add(z, &src, Rd::N(T_CNAME, t));
				cur = n;
			} } else {
			for _ in 0..*r.pick(&[0usize, 0, 1, 1, 2, 3]) {
				if r.chance(1, 3) && !cur.is_empty() {
					let z = r.below(nz);
					let d = Self::below(r, &e.zones[z].apex.clone(), if nz == 1 { 1 } else { 0 }, 1);
					let k = r.below(cur.len());
					let t = trail(&cur, k);
					let ti = e.w.name(&t);
					e.add(z, &d, Rd::N(T_DNAME, ti));
					let mut m = cur[..cur.len() - k].to_vec();
					m.extend(d);
					cur = m;
				} else {
					let (z, src, n) = place(&mut e, r, 1, None)?;
					let t = e.w.name(&cur);
					e.add(z, &src, Rd::N(T_CNAME, t));
					cur = n;
				}
			}
			for _ in 0..*r.pick(&[0usize, 0, 1, 3]) { // bystanders
				let (z, src, _) = place(&mut e, r, 1, None)?;
				let ty = *r.pick(&[T_A, T_TXT, T_TLSA]);
				let x = Self::leaf(r, &mut e.w, ty);
				e.add(z, &src, x);
			}
			}
			cur
		};
		e.qn = e.w.name(&cur);
		if text_len(&cur) > 250 || !e.sane() { return None; }
		// Denial of existence and signatures
		for z in 0..nz {
			let apex = e.zones[z].apex.clone();
			let mut own: Vec<Nm> = e.recs.iter().filter(|x| x.z == z).map(|x| e.w.names[x.o].clone()).collect();
			let types = |e: &E, n: &Nm| { let o = e.w.names.iter().position(|x| x == n); let mut t: Vec<u16> = e.recs.iter().filter(|x| x.z == z && Some(x.o) == o).map(|x| e.w.rd[x.rd].ty()).collect(); t.push(T_RRSIG); t.sort(); t.dedup(); t };
			if let Some((it, salt)) = e.zones[z].n3.clone() {
				for n in own.clone() { for k in apex.len()..n.len() { own.push(trail(&n, k)); } }
				own.sort(); own.dedup();
				let mut hs: Vec<(Vec<u8>, Nm)> = own.iter().map(|n| (nsec3_hash(n, it, &salt), n.clone())).collect();
				hs.sort();
				for i in 0..hs.len() {
					let nh = hs[(i + 1) % hs.len()].0.clone();
					let owner = cat(&String::from_utf8(b32(&hs[i].0)).unwrap().to_ascii_lowercase(), &apex);
					let t = types(&e, &hs[i].1);
					e.add(z, &owner, Rd::Nsec3 { ha: 1, fl: 0, it, salt: salt.clone(), nh, types: t });
				}
			} else {
				own.sort_by(name_cmp); own.dedup();
				for i in 0..own.len() {
					let next = e.w.name(&own[(i + 1) % own.len()]);
					let mut t = types(&e, &own[i]); t.push(T_NSEC); t.sort();
					e.add(z, &own[i], Rd::Nsec { next, types: t });
				}
			}
			let mut sets: Vec<(usize, u16)> = e.recs.iter().filter(|x| x.z == z).map(|x| (x.o, e.w.rd[x.rd].ty())).collect();
			sets.sort(); sets.dedup();
			for (o, t) in sets { let n = e.w.names[o].clone(); e.sign(r, z, &n, t); }
		}
		let (qn, qt) = (e.w.names[e.qn].clone(), e.qt);
		let mut m = e.lookup(&qn, qt)?;
		if r.chance(1, 3) { // name servers of the zone of the answer
			let z = e.zone_of(&e.w.names[m.an.last()?.0].clone());
			let apex = e.zones[z].apex.clone();
			let o = e.w.name(&apex);
			let ns: Vec<(usize, usize)> = [e.at(z, &apex, T_NS), e.sigs(z, &apex, T_NS)].concat().into_iter().map(|t| (o, t)).collect();
			if r.chance(1, 2) { m.au.extend(ns); } else { m.au.splice(0..0, ns); }
		}
		if r.chance(1, 3) { r.shuffle(&mut m.an); }
		e.main = m;
		e.seed = r.u64() >> 16;
		Some(e)
	}
	pub fn make(prof: &str, r: &mut Rng) -> E {
		for _ in 0..10000 { if let Some(e) = Self::attempt(prof, r, None) { return e; } }
		panic!("harness: no zones came of it")
	}
	pub fn planted(tree: &Tree, r: &mut Rng) -> E {
		for _ in 0..10000 { if let Some(e) = Self::attempt("", r, Some(tree)) { return e; } }
		panic!("harness: no zones came of it")
	}
	pub fn to_json(&mut self) -> J {
		self.w.rrs = self.recs.iter().map(|x| (x.o, x.rd)).collect();
		let h = self.h.clone();
		let mut j = self.w.to_json();
		let hs = h.iter().map(|(i, it, salt)| obj! { "n" => n(*i as i64 + 1), "it" => n(*it), "salt" => J::b(salt), "h" => J::b(&nsec3_hash(&self.w.names[*i], *it, salt)) }).collect();
		j.set("h", J::Arr(hs));
		j.set("zs", J::Arr(self.recs.iter().map(|x| n(x.z as i64 + 1)).collect()));
		let mut zs = vec![];
		for z in self.zones.clone() { zs.push(n(self.w.name(&z.apex) as i64 + 1)); }
		j.set("zones", J::Arr(zs));
		let pr = |v: &Vec<(usize, usize)>| J::Arr(v.iter().map(|(o, t)| J::Arr(vec![n(*o as i64 + 1), n(self.w.rd[*t].ty()), n(*t as i64 + 1)])).collect());
		j.set("an", pr(&self.main.an)); j.set("au", pr(&self.main.au));
		j.set("qn", n(self.qn as i64 + 1)); j.set("qt", n(self.qt)); j.set("seed", n((self.seed & 0x3fff_ffff) as i64));
		j
	}
	pub fn from_json(j: &J) -> E {
		let w = World::from_json(j);
		let zs: Vec<usize> = j.a("zs").iter().map(|x| x.int() as usize - 1).collect();
		let recs: Vec<Rec> = w.rrs.iter().zip(zs).map(|((o, rd), z)| Rec { z, o: *o, rd: *rd }).collect();
		let zones = j.a("zones").iter().map(|a| Zn { apex: w.names[a.int() as usize - 1].clone(), ksk: (0, 0), zsks: vec![], n3: None }).collect();
		let pr = |k: &str| j.a(k).iter().map(|x| { let a = x.arr(); (a[0].int() as usize - 1, a[2].int() as usize - 1) }).collect();
		E { zones, recs, qn: j.i("qn") as usize - 1, qt: j.i("qt") as u16, main: Resp { an: pr("an"), au: pr("au") }, h: vec![], seed: j.i("seed") as u64, times: false, w }
	}
	/// The answer to a question, as records.
	pub fn respond(&self, qn: &Nm, qt: u16) -> Resp {
		if *qn == self.w.names[self.qn] && qt == self.qt { return self.main.clone(); }
		let z = match self.zones.iter().position(|z| z.apex == *qn) { Some(z) => z, None => return Resp::default() };
		let from = match qt { T_DNSKEY => z, T_DS if !qn.is_empty() => self.parent_of(z), _ => return Resp::default() };
		let o = self.w.names.iter().position(|x| x == qn).unwrap();
		Resp { an: [self.at(from, qn, qt), self.sigs(from, qn, qt)].concat().into_iter().map(|t| (o, t)).collect(), au: vec![] }
	}
	pub fn encode(&self, r: &mut Rng, rds: &[Vec<u8>], qn: &Nm, qt: u16, resp: &Resp) -> Vec<u8> {
		let mut m = Msg::new(r, qn, qt);
		for (k, (o, t)) in resp.an.iter().chain(&resp.au).enumerate() {
			m.e.name(&self.w.names[*o]);
			m.e.out.extend_from_slice(&self.w.rd[*t].ty().to_be_bytes());
			m.e.out.extend_from_slice(&[0, 1]);
			m.e.out.extend_from_slice(&(r.below(90000) as u32 + [0, 0, 90000, 4_294_800_000][(self.seed & 3) as usize]).to_be_bytes());
			let p = m.e.out.len();
			m.e.out.extend_from_slice(&[0, 0]);
			match &self.w.rd[*t] {
				Rd::N(_, to) if r.chance(1, 2) => m.e.name(&self.w.names[*to]),
				_ => m.e.out.extend_from_slice(&rds[*t]),
			}
			let l = (m.e.out.len() - p - 2) as u16;
			m.e.out[p..p + 2].copy_from_slice(&l.to_be_bytes());
			if k < resp.an.len() { m.an += 1 } else { m.ns += 1 }
		}
		m.done()
	}
	/// The records of a response that belong into a proof.
	pub fn kept(&self, resp: &Resp) -> Vec<(usize, usize)> {
		resp.an.iter().cloned().chain(resp.au.iter().cloned().filter(|(_, t)| match &self.w.rd[*t] {
			Rd::Nsec { .. } | Rd::Nsec3 { .. } => true, Rd::Sig(s) => s.ct == T_NSEC || s.ct == T_NSEC3, _ => false })).collect()
	}
	/// What the verifier makes of a proof holding these records.
	pub fn verdict(&self, proof: &[u8], order: &[(usize, usize)]) -> J {
		let rrs = match parse_rr_stream(proof) { Ok(r) => r, Err(()) => return obj! { "v" => s("parse_err"), "rs" => J::Arr(vec![]) } };
		if rrs.len() != order.len() { return obj! { "v" => s("parse_count"), "rs" => J::Arr(vec![]) }; }
		let v = match verify_rr_stream(&rrs) {
			Ok(v) => v,
			Err(ValidationError::Invalid) => return obj! { "v" => s("invalid"), "rs" => J::Arr(vec![]) },
			Err(ValidationError::UnsupportedAlgorithm) => return obj! { "v" => s("unsupported"), "rs" => J::Arr(vec![]) },
		};
		let q: Name = show(&self.w.names[self.qn]).try_into().unwrap();
		let rs = v.resolve_name(&q).iter().map(|rr| match rrs.iter().position(|x| std::ptr::eq(x, *rr)) {
			Some(p) => { let (o, t) = order[p]; J::Arr(vec![n(o as i64 + 1), n(self.w.rd[t].ty()), n(t as i64 + 1)]) },
			None => J::Arr(vec![]),
		}).collect();
		obj! { "v" => s("ok"), "rs" => J::Arr(rs) }
	}
}
/// The question of a query.
pub fn question(q: &[u8]) -> (Nm, u16) {
	let (mut n, mut p) = (vec![], 12);
	while q[p] != 0 { let l = q[p] as usize; n.push(q[p + 1..p + 1 + l].to_vec()); p += l + 1; }
	(n, u16::from_be_bytes([q[p + 1], q[p + 2]]))
}

pub fn gen(prof: &str, r: &mut Rng) -> J { E::make(prof, r).to_json() }
/// A case from a behaviour of E2EMC.tla.
pub fn plant(j: &J) -> J {
	let ix = |k: &str| -> Vec<usize> { j.a(k).iter().map(|x| x.int() as usize - 1).collect() };
	let mut r = Rng::new(j.i("seed") as u64);
	let mut t = Tree { par: ix("par"), signers: ix("s") };
	r.shuffle(&mut t.signers);
	let mut e = E::planted(&t, &mut r);
	let mut c = e.to_json();
	let sched = j.a("sched").iter().map(|q| { let q = q.arr(); match q[0].int() { 0 => J::Arr(vec![n(e.qn as i64 + 1), n(e.qt)]), z => J::Arr(vec![n(e.w.name(&e.zones[z as usize - 1].apex.clone()) as i64 + 1), q[1].clone()]) } }).collect();
	c.set("sched", J::Arr(sched));
	c
}
pub fn run(case: &J) -> J {
	let e = E::from_json(case);
	let mut r = Rng::new(e.seed);
	let rds = e.w.all_rdata();
	let q: Name = show(&e.w.names[e.qn]).try_into().unwrap();
	let (mut b, q0) = ProofBuilder::new(&q, e.qt);
	let mut pending: Vec<Vec<u8>> = vec![q0.to_vec()];
	let (mut order, mut asked): (Vec<(usize, usize)>, Vec<J>) = (vec![], vec![]);
	let style = r.below(3);
	let mut refused = 0;
	while b.awaiting_responses() {
		if pending.is_empty() { break; }
		let i = if let Some(sc) = case.get("sched") {
			let want = match sc.arr().get(asked.len()) { Some(q) => q.arr(), None => break };
			match pending.iter().position(|q| { let (qn, qt) = question(q); qn == e.w.names[want[0].int() as usize - 1] && qt as i64 == want[1].int() }) { Some(i) => i, None => break }
		} else { match style { 0 => 0, 1 => pending.len() - 1, _ => r.below(pending.len()) } };
		let (qn, qt) = question(&pending.remove(i));
		asked.push(J::Arr(vec![jn(&qn), n(qt)]));
		let resp = e.respond(&qn, qt);
		let m = e.encode(&mut r, &rds, &qn, qt, &resp);
		if m.len() > 65535 { panic!("harness: message too long"); }
		match b.process_response(&buf(&m)) { Ok(q) => { order.extend(e.kept(&resp)); pending.extend(q.iter().map(|q| q.to_vec())); }, Err(()) => refused += 1 }
	}
	let left = pending.len();
	let mut o = obj! { "res" => s("ok"), "asked" => J::Arr(asked), "left" => n(left as i64), "refused" => n(refused) };
	match b.finish_proof() {
		Ok((p, _)) => { let v = e.verdict(&p, &order); o.set("fin", s("ok")); o.set("v", v.at("v").clone()); o.set("rs", v.at("rs").clone()); },
		Err(()) => { o.set("fin", s("err")); o.set("v", s("none")); o.set("rs", J::Arr(vec![])); },
	}
	o.set("order", J::Arr(order.iter().map(|(o, t)| J::Arr(vec![n(*o as i64 + 1), n(e.w.rd[*t].ty()), n(*t as i64 + 1)])).collect()));
	o
}
#[allow(dead_code)]
pub type Table = HashMap<(Nm, u16), Vec<u8>>;
