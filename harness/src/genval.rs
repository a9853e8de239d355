//! Random proofs: an honest chain of zones answering a few queries, then adversarial edits.
//! The profile only shifts probabilities; what is right for a case is decided by Validation.tla.
use crate::json::*;
use crate::keys;
use crate::rng::Rng;
use crate::world::*;

#[derive(Clone)]
struct K { kid: i64, fl: u16, pr: u8, alg: u8, rd: usize }
struct Z { apex: Nm, parent: usize, keys: Vec<K>, ksk: Vec<usize>, zsk: Vec<usize>, n3: Option<(u8, u16, Vec<u8>)>, exist: Vec<(Nm, Vec<u16>)> }

struct G<'a> { r: &'a mut Rng, w: World, z: Vec<Z>, prof: &'a str, next_kid: i64, calm: bool }

const LABELS: [&str; 16] = ["a", "b", "c", "ab", "ba", "z", "0", "-", "com", "xcom", "om", "_tcp", "a-b", "zz", "y", "m"];

impl<'a> G<'a> {
	fn is(&self, p: &str) -> bool { self.prof == p }
	fn label(&mut self) -> String {
		if self.r.chance(1, 24) { return String::from_utf8(b32(&self.r.bytes(20))).unwrap(); }
		if self.r.chance(1, 40) { return "*".into(); }
		if self.r.chance(1, 60) { return "q".repeat(63); }
		self.r.pick(&LABELS).to_string()
	}
	fn below(&mut self, z: &Nm, lo: usize, hi: usize) -> Nm {
		let k = self.r.range(lo, hi);
		let mut n = z.clone();
		for _ in 0..k { let l = self.label(); n = cat(&l, &n); }
		n
	}
	fn time(&mut self) -> (u32, u32) {
		let p = if self.is("window") { (1, 2) } else if self.is("large") { (1, 5000) } else if self.is("honest") { (1, 100) } else { (1, 25) };
		if self.r.chance(p.0, p.1) {
			let ed = [0u32, 1, 851471998, 851471999, 851472000, 851472001, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1, u32::MAX, 1_700_000_000, 1_700_000_001, 1_699_999_999, 100];
			if self.r.chance(1, 5) { let a = self.r.u64() as u32; return (a, self.r.u64() as u32); }
			let a = *self.r.pick(&ed);
			let b = *self.r.pick(&ed);
			// Mostly in order, as the resolved times see them.
			let key = |t: u32| if t < 851_472_000 { t as u64 + (1 << 32) } else { t as u64 };
			if key(a) <= key(b) || self.r.chance(1, 10) { (a, b) } else { (b, a) }
		} else {
			(1_700_000_000 - self.r.below(200_000) as u32, 1_700_000_001 + self.r.below(200_000) as u32)
		}
	}
	fn ttl(&mut self) -> u32 { *self.r.pick(&[0u32, 1, 60, 300, 3600, 3601, 86400, 65535, 65536, 0x7fff_ffff, u32::MAX]) }
	fn new_kid(&mut self) -> (i64, u8) {
		let p = if self.is("alg") { 3 } else { 12 };
		if self.r.chance(1, p) {
			let k = *self.r.pick(&[31i64, 32, 41, 51, 52]);
			if k > 50 && self.r.chance(1, 4) { return (k, *self.r.pick(&[8u8, 10])); }
			return (k, keys::key(k).alg);
		}
		self.next_kid = if self.next_kid >= 27 { 2 } else { self.next_kid + 1 };
		(self.next_kid, 15)
	}
	fn add_key(&mut self, zi: usize, fl: u16, sep: bool) -> usize {
		let (mut kid, mut alg) = self.new_kid();
		let (mut fl, mut pr) = (fl, 3u8);
		let p = if self.is("alg") { 6 } else { 40 };
		if !self.calm && self.r.chance(1, p) {
			match self.r.below(6) {
				0 => fl = *self.r.pick(&[0u16, 1, 0x180, 0x181, 0xffff, 0xfeff, 0x80]),
				1 => pr = *self.r.pick(&[0u8, 1, 2, 4, 255]),
				2 => alg = *self.r.pick(&[8u8, 10, 13, 14, 15]),
				_ => { kid = 61; alg = *self.r.pick(&[1u8, 3, 5, 6, 7, 12, 16, 253, 0]); if self.r.chance(1, 2) { kid = 62; } },
			}
		}
		if kid == 61 && self.z[zi].keys.iter().any(|k| k.kid == 61) { kid = 62; }
		let rd = self.w.rdi(Rd::Key { kid, fl, pr, alg });
		let z = &mut self.z[zi];
		z.keys.push(K { kid, fl, pr, alg, rd });
		let i = z.keys.len() - 1;
		if sep { z.ksk.push(i) } else { z.zsk.push(i) }
		i
	}
	fn tag(&self, k: &K) -> u16 { keys::key_tag(k.fl, k.pr, k.alg, &keys::key(k.kid).public) }
	/// An RRSIG at `owner` over type `ct`, claiming and made by key `k` of zone `kn`.
	fn sig(&mut self, owner: &Nm, ct: u16, set: Vec<usize>, kn: &Nm, k: &K, lab: usize, on: &Nm) -> usize {
		let (inc, exp) = self.time();
		let mut s = Sig { ct, alg: k.alg, lab: lab as u8, ottl: self.ttl(), exp, inc, tag: self.tag(k), kn: self.w.name(kn), by: k.kid, mh: true, on: self.w.name(on), set };
		// Properly made, by a key which the tag is not that of
		if !self.calm && self.r.chance(1, if self.is("alg") { 40 } else { 200 }) { s.tag = wrong_tag(&mut self.r, s.tag); }
		let o = self.w.name(owner);
		self.w.add(o, Rd::Sig(s))
	}
	fn data(&mut self, ty: u16) -> Rd {
		match ty {
			T_A => Rd::B(T_A, self.r.bytes(4)),
			T_AAAA => Rd::B(T_AAAA, self.r.bytes(16)),
			T_TXT => { let n = *self.r.pick(&[0usize, 1, 5, 20, 20, 254, 255, 256, 300]); let b = self.r.u64() as u8; let mut v = vec![b; n]; if n > 2 { v[n / 2] ^= self.r.u64() as u8; } Rd::B(T_TXT, v) },
			T_TLSA => { let n = self.r.below(12); Rd::B(T_TLSA, self.r.bytes(3 + n)) },
			t => { let n = self.below(&vec![], 0, 3); let i = self.w.name(&n); Rd::N(t, i) },
		}
	}
	fn nlab(n: &Nm) -> usize { if n.first().map(|l| &l[..] == b"*").unwrap_or(false) { n.len() - 1 } else { n.len() } }
	fn zkey(&mut self, zi: usize) -> K {
		let z = &self.z[zi];
		let v = if z.zsk.is_empty() { &z.ksk } else { &z.zsk };
		z.keys[v[self.r.below(v.len())]].clone()
	}
	/// Publish the RRset and its signature by the zone.
	fn publish(&mut self, zi: usize, owner: &Nm, rds: Vec<Rd>) -> Vec<usize> {
		let o = self.w.name(owner);
		let ty = rds[0].ty();
		for rd in rds { self.w.add(o, rd); }
		let set = self.w.set(o, ty);
		let apex = self.z[zi].apex.clone();
		let mut out = vec![];
		let times = if self.r.chance(1, 10) { 2 } else { 1 };
		for _ in 0..times {
			let k = self.zkey(zi);
			out.push(self.sig(owner, ty, set.clone(), &apex, &k, Self::nlab(owner), owner));
		}
		out
	}
	/// How often the rarer attacks on a zone's keys are tried.
	fn keyp(&self) -> u64 { if self.is("malice") { 8 } else if self.is("alg") { 10 } else { 50 } }
	fn zone(&mut self, parent: usize) {
		let papex = if self.z.is_empty() { vec![] } else { self.z[parent].apex.clone() };
		let apex = if self.z.is_empty() { vec![] } else {
			let hi = if self.r.chance(1, 5) { 2 } else { 1 };
			self.below(&papex, 1, hi)
		};
		self.zone_at(parent, apex);
	}
	fn zone_at(&mut self, parent: usize, apex: Nm) {
		if self.z.iter().any(|z| z.apex == apex) && !self.z.is_empty() { return; }
		let large = self.is("large");
		let n3 = if self.r.chance(1, 2) {
			let it = *self.r.pick(&[0u16, 0, 0, 1, 2, 10, 2499, 2500, 2501]);
			let it = if it > 10 && !self.r.chance(1, 6) { 1 } else { it };
			let n = *self.r.pick(&[0usize, 0, 1, 4, 8]);
			Some((1u8, it, self.r.bytes(n)))
		} else { None };
		let root = self.z.is_empty();
		let mut hijacked = false;
		self.z.push(Z { apex: apex.clone(), parent, keys: vec![], ksk: vec![], zsk: vec![], n3, exist: vec![(apex, vec![T_NS, T_DNSKEY])] });
		let zi = self.z.len() - 1;
		if root {
			let rd = self.w.rdi(Rd::Key { kid: 1, fl: 257, pr: 3, alg: 15 });
			self.z[0].keys.push(K { kid: 1, fl: 257, pr: 3, alg: 15, rd });
			self.z[0].ksk.push(0);
		} else if !self.calm && { let p = self.keyp(); self.r.chance(1, p) } {
			// The parent vouches for one key; whoever holds another one with the same tag took over.
			let (good, evil) = if self.r.chance(1, 2) { (28i64, 29i64) } else { (29, 28) };
			for kid in if self.r.chance(1, 2) { [good, evil] } else { [evil, good] } {
				let rd = self.w.rdi(Rd::Key { kid, fl: 256, pr: 3, alg: 15 });
				self.z[zi].keys.push(K { kid, fl: 256, pr: 3, alg: 15, rd });
			}
			let g = self.z[zi].keys.iter().position(|k| k.kid == good).unwrap();
			self.z[zi].ksk.push(g);
			self.z[zi].zsk.push(1 - g);
			hijacked = true;
		} else {
			self.add_key(zi, 257, true);
			if !large && self.r.chance(1, 8) { self.add_key(zi, 257, true); }
		}
		if !hijacked && self.r.chance(2, 3) { self.add_key(zi, 256, false); }
		if !hijacked && self.r.chance(1, 8) { self.add_key(zi, 256, false); }
		if !self.calm && { let p = self.keyp(); self.r.chance(1, p) } {
			// A public key that is none, with signatures that name it
			let kid = 71 + self.r.below(16) as i64;
			let alg = *self.r.pick(&[8u8, 8, 8, 10, 10, 13, 14, 15]);
			let fl = *self.r.pick(&[256u16, 257]);
			let rd = self.w.rdi(Rd::Key { kid, fl, pr: 3, alg });
			self.z[zi].keys.push(K { kid, fl, pr: 3, alg, rd });
			let i = self.z[zi].keys.len() - 1;
			self.z[zi].zsk.push(i);
			if !root && self.r.chance(1, 2) { self.z[zi].ksk.push(i); }
		}
		if !hijacked && !self.calm && self.r.chance(1, 25) {
			for kid in [28i64, 29] {
				let rd = self.w.rdi(Rd::Key { kid, fl: 256, pr: 3, alg: 15 });
				self.z[zi].keys.push(K { kid, fl: 256, pr: 3, alg: 15, rd });
				let i = self.z[zi].keys.len() - 1;
				self.z[zi].zsk.push(i);
				if !root && self.r.chance(1, 2) { self.z[zi].ksk.push(i); }
			}
		}
		// The DNSKEY RRset
		let o = self.w.name(&self.z[zi].apex.clone());
		let krds: Vec<usize> = self.z[zi].keys.iter().map(|k| k.rd).collect();
		for rd in krds { self.w.rrs.push((o, rd)); }
		let set = self.w.set(o, T_DNSKEY);
		let apex = self.z[zi].apex.clone();
		let mut signers = self.z[zi].ksk.clone();
		if hijacked { signers = vec![self.z[zi].zsk[0]]; if self.r.chance(1, 6) { signers.push(self.z[zi].ksk[0]); } }
		if !large && self.r.chance(1, 6) { signers.extend(self.z[zi].zsk.clone()); }
		for i in signers {
			let k = self.z[zi].keys[i].clone();
			self.sig(&apex, T_DNSKEY, set.clone(), &apex, &k, apex.len(), &apex);
		}
		if root { return; }
		// The DS RRset
		let mut dss = vec![];
		for i in self.z[zi].ksk.clone() {
			let k = self.z[zi].keys[i].clone();
			let on = self.w.name(&apex);
			let dts: Vec<u8> = if self.is("alg") || (!self.calm && self.r.chance(1, 20)) {
				self.r.pick(&[vec![1u8], vec![4], vec![1, 2], vec![2, 4], vec![1, 4], vec![1, 2, 4], vec![3], vec![0, 5], vec![2, 3], vec![1, 3], vec![2], vec![2]]).clone()
			} else { vec![2] };
			for dt in dts {
				let mut d = (self.tag(&k), k.alg, k.rd, on);
				if !self.calm && self.r.chance(1, if self.is("alg") { 8 } else { 60 }) {
					match self.r.below(4) { 0 => d.0 = wrong_tag(&mut self.r, d.0), 1 => d.1 = *self.r.pick(&[8u8, 10, 13, 14, 15, 16, 0, 255]), 2 => d.2 = NONE,
						_ => { let n = self.below(&vec![], 0, 2); d.3 = self.w.name(&n); } }
				}
				let (okey, on) = if d.2 == NONE { (NONE, NONE) } else { (d.2, d.3) };
				let p = if self.is("alg") || self.is("malice") { 10 } else { 60 };
				let cut = if !self.calm && self.r.chance(1, p) { *self.r.pick(&[-1i8, -4, -12, -16, -31, -32, -48, 1, 16]) } else { 0 };
				let ds = Rd::Ds { tag: d.0, alg: d.1, dt, okey, on, cut };
				if !dss.contains(&ds) { dss.push(ds); }
			}
		}
		if self.r.chance(1, 12) { dss.push(Rd::Ds { tag: self.r.u64() as u16, alg: 13, dt: 2, okey: NONE, on: NONE, cut: 0 }); }
		// A digest of something else under the tag of a key that is vouched for (an old key, or one whose
		// tag is the same), before or after the right one
		if self.r.chance(1, 12) && !dss.is_empty() {
			let d = self.r.pick(&dss).clone();
			if let Rd::Ds { tag, alg, dt, .. } = d {
				let d = Rd::Ds { tag, alg, dt, okey: NONE, on: NONE, cut: 0 };
				if !dss.contains(&d) { let at = self.r.below(dss.len() + 1); dss.insert(at, d); }
			}
		}
		self.publish(parent, &apex, dss);
		self.z[parent].exist.push((apex, vec![T_NS, T_DS]));
	}
	fn leaf_types(&mut self) -> u16 { *self.r.pick(&[T_TXT, T_TXT, T_TXT, T_A, T_AAAA, T_TLSA, T_CNAME, T_DNAME, T_NS]) }
	fn rdset(&mut self, ty: u16) -> Vec<Rd> {
		let n = if ty == T_CNAME || ty == T_DNAME { 1 } else { *self.r.pick(&[1usize, 1, 1, 2, 3]) };
		let mut v: Vec<Rd> = vec![];
		for _ in 0..n { let d = self.data(ty); if !v.contains(&d) { v.push(d); } }
		v
	}
	/// Sign and publish an authenticated denial of `nc` from zone `zi`, with optional defects.
	fn deny(&mut self, zi: usize, nc: &Nm, ty: u16, defects: bool) {
		let apex = self.z[zi].apex.clone();
		let mode3 = self.z[zi].n3.clone();
		let d = if defects { self.r.below(14) } else { 99 };
		let mut types = vec![T_A, T_RRSIG];
		if self.r.chance(1, 2) { types.push(ty); }
		if self.r.chance(1, 6) { types.push(*self.r.pick(&[0u16, 255, 256, 257, 1234, 65535])); }
		types.sort(); types.dedup();
		if let Some((ha, it, salt)) = mode3 {
			let h = nsec3_hash(nc, it, &salt);
			let (mut lo, mut hi) = (h.clone(), h.clone());
			// A tight or a loose interval around the hash
			let pos = if self.r.chance(1, 2) { 19 } else { self.r.below(20) };
			let dec = |v: &mut Vec<u8>, mut p: usize| loop { if v[p] > 0 { v[p] -= 1; break true; } if p == 0 { break false; } v[p] = 255; p -= 1; };
			let inc = |v: &mut Vec<u8>, mut p: usize| loop { if v[p] < 255 { v[p] += 1; break true; } if p == 0 { break false; } v[p] = 0; p -= 1; };
			dec(&mut lo, pos); inc(&mut hi, pos);
			match self.r.below(10) { // the last one of the zone
				0 => { hi = vec![0; 20]; hi[19] = self.r.below(9) as u8; },
				1 => { lo = vec![255; 20]; lo[19] = self.r.below(256) as u8; },
				2 => hi = lo.clone(), // the only one
				_ => {},
			}
			let (mut ha, mut fl, mut it, mut salt) = (ha, 0u8, it, salt);
			match d {
				0 => fl = *self.r.pick(&[1u8, 2, 128]),
				1 => ha = *self.r.pick(&[0u8, 2, 255]),
				2 => lo = h.clone(),                       // exact match
				3 => hi = h.clone(),                       // ends at the name
				4 => std::mem::swap(&mut lo, &mut hi),     // outside / wrap
				5 => { hi = h.clone(); dec(&mut hi, 18); dec(&mut lo, 17); },
				6 => { lo = h.clone(); inc(&mut lo, 18); inc(&mut hi, 17); },
				7 => it = it.wrapping_add(1),
				8 => salt.push(7),
				9 => { hi.pop(); },
				10 => { hi.push(0); },
				11 => { lo = h.clone(); hi = h.clone(); },
				_ => {},
			}
			let many = self.r.chance(1, 24); // parameters in great number
			let extra = if many { self.r.range(3, 8) } else if self.r.chance(1, 8) { self.r.range(1, 3) } else { 0 };
			let mut recs = vec![(ha, fl, it, salt.clone(), lo, hi)];
			for i in 0..extra {
				let (l, hh) = (self.r.bytes(20), self.r.bytes(20));
				recs.push((1, if self.r.chance(1, 4) { 1 } else { 0 }, if self.r.chance(1, 6) { 2501 } else if many { 300 + i as u16 } else { i as u16 }, if self.r.chance(1, 2) { salt.clone() } else { self.r.bytes(2) }, l, hh));
			}
			if d > 13 && self.r.chance(1, 6) { // the chain with other parameters, which are nearly the same
				let (it2, mut s2) = if self.r.chance(1, 4) { (it + 1, salt.clone()) } else { (it, salt.clone()) };
				if it2 == it { if s2.is_empty() || self.r.chance(1, 6) { s2.push(0) } else { let p = self.r.below(s2.len()); s2[p] ^= 1 << self.r.below(8); } }
				let h2 = nsec3_hash(nc, it2, &s2);
				let (mut l, mut hh) = (h2.clone(), h2);
				if self.r.chance(2, 3) { inc(&mut l, 19); inc(&mut hh, 18); } else { dec(&mut l, 19); inc(&mut hh, 19); }
				let r = (ha, 0, it2, s2, l, hh);
				if self.r.chance(1, 2) { recs.push(r); } else { recs.insert(0, r); }
			}
			for (ha, fl, it, salt, lo, nh) in recs {
				let mut lab = String::from_utf8(b32(&lo)).unwrap();
				if d == 12 && self.r.chance(1, 2) { // of another length than a hash has
					match self.r.below(3) { 0 => lab += *self.r.pick(&["0", "00", "000", "0000", "00000000"]), _ => lab.truncate(*self.r.pick(&[2usize, 4, 5, 7, 8, 16, 24, 29, 31, 30])) }
				} else if d == 12 { lab = self.r.pick(&["w0000000000000000000000000000000", "0", "zz", "00000000000000000000000000000000"]).to_string(); }
				let owner = if d == 13 { let x = self.below(&apex, 1, 1); cat(&lab, &x) } else { cat(&lab, &apex) };
				self.publish(zi, &owner, vec![Rd::Nsec3 { ha, fl, it, salt, nh, types: types.clone() }]);
			}
		} else {
			let mut ex: Vec<Nm> = self.z[zi].exist.iter().map(|x| x.0.clone()).filter(|n| n != nc && !under(n, nc)).collect();
			if ex.is_empty() { ex.push(apex.clone()); }
			ex.sort_by(name_cmp); ex.dedup();
			let i = ex.iter().rposition(|n| name_cmp(n, nc).is_lt()).unwrap_or(0);
			let (mut owner, mut next) = (ex[i].clone(), ex[(i + 1) % ex.len()].clone());
			if i + 1 == ex.len() && !self.r.chance(1, 4) {
				// Avoid most wrap-arounds by inventing a later name
				let mut l = nc[0].clone(); l.push(b'z');
				next = nc.clone(); next[0] = l;
				if next[0].len() > 63 { next[0] = b"zzz".to_vec(); }
			}
			match d {
				0 => owner = nc.clone(),
				1 => next = nc.clone(),
				2 => std::mem::swap(&mut owner, &mut next),
				3 => next = self.below(nc, 1, 2),             // the name is an empty non-terminal
				4 => owner = self.below(nc, 1, 2),
				5 => { owner = nc.clone(); types.retain(|t| *t != ty); },
				6 => { owner = nc.clone(); next = nc.clone(); },
				7 => next = owner.clone(),
				8 => next = apex.clone(),                     // wrap-around
				9 => { owner = self.below(&apex, 0, 2); next = self.below(&apex, 0, 2); },
				10 => { owner = self.below(nc, 1, 1); next = self.below(nc, 1, 1); },
				11 => { next = self.below(&vec![], 0, 2); },
				_ => {},
			}
			let next = self.w.name(&next);
			self.publish(zi, &owner, vec![Rd::Nsec { next, types }]);
		}
	}
	fn leaf(&mut self) {
		let zi = self.r.below(self.z.len());
		let apex = self.z[zi].apex.clone();
		let ty = self.leaf_types();
		let wp = if self.is("wild") { (5, 6) } else { (1, 4) };
		if !self.r.chance(wp.0, wp.1) {
			let owner = self.below(&apex, 0, 2);
			let rds = self.rdset(ty);
			self.publish(zi, &owner, rds);
			self.z[zi].exist.push((owner, vec![ty]));
			return;
		}
		// A wildcard expansion
		let base = self.below(&apex, 0, 1);
		let wild = cat("*", &base);
		let q = self.below(&base, 1, 3);
		let rds = self.rdset(ty);
		let o = self.w.name(&q);
		for rd in rds { self.w.add(o, rd); }
		let set = self.w.set(o, ty);
		let k = self.zkey(zi);
		let lab = base.len();
		self.sig(&q, ty, set, &apex, &k, lab, &wild);
		self.z[zi].exist.push((wild, vec![ty]));
		let nc = trail(&q, lab + 1);
		if nc[0] == b"*" && q.len() == lab + 1 { return; }
		let dp = if self.is("wild") { (1, 2) } else { (1, 5) };
		if self.calm || !self.r.chance(1, 12) { let def = !self.calm && self.r.chance(dp.0, dp.1); self.deny(zi, &nc, ty, def); }
		if !self.calm && self.r.chance(1, 8) {
			// Some other zone up there has a wildcard right here, too, of another type
			let up: Vec<usize> = (0..self.z.len()).filter(|x| *x != zi && under(&base, &self.z[*x].apex)).collect();
			let ty2 = self.leaf_types();
			if !up.is_empty() && ty2 != ty && ty2 != T_CNAME && ty != T_CNAME {
				let zj = *self.r.pick(&up);
				for rd in self.rdset(ty2) { self.w.add(o, rd); }
				let set = self.w.set(o, ty2);
				let (k, kn) = (self.zkey(zj), self.z[zj].apex.clone());
				let on = cat("*", &base);
				self.sig(&q, ty2, set, &kn, &k, lab, &on);
			}
		}
		if !self.calm && self.r.chance(1, 6) {
			// A denial of the same name from some other zone
			let oz = self.r.below(self.z.len());
			self.deny(oz, &nc, ty, false);
		}
		if self.r.chance(1, 5) {
			// The same expansion used for a second type or name
			let ty2 = self.leaf_types();
			let q2 = if self.r.chance(1, 2) { q.clone() } else { self.below(&base, 1, 2) };
			let rds = self.rdset(ty2);
			let o = self.w.name(&q2);
			for rd in rds { self.w.add(o, rd); }
			let set = self.w.set(o, ty2);
			let wild = cat("*", &base);
			self.sig(&q2, ty2, set, &apex, &k, lab, &wild);
			if self.r.chance(1, 2) { let nc2 = trail(&q2, lab + 1); self.deny(zi, &nc2, ty2, false); }
		}
	}
	/// Honest, but much of it: deep chains, many zones, large RRsets and records.
	fn large(&mut self) {
		let mut zi = 0;
		match self.r.below(7) {
			0 => { // every label is a zone of its own
				let d = *self.r.pick(&[5usize, 8, 9, 11, 13, 16, 17, 22, 32, 33, 41, 64, 65, 100, 125]);
				for _ in 0..d {
					let l = ((b'a' + self.r.below(26) as u8) as char).to_string();
					let apex = cat(&l, &self.z[zi].apex.clone());
					self.zone_at(zi, apex);
					zi = self.z.len() - 1;
				}
			},
			1 => { // zones next to each other, and below those
				for i in 0..self.r.range(9, 70) {
					let p = if self.r.chance(3, 4) { 0 } else { self.r.below(self.z.len()) };
					let apex = cat(&format!("s{}", i), &self.z[p].apex.clone());
					self.zone_at(p, apex);
				}
				zi = self.r.below(self.z.len());
			},
			2 => self.zone(0),
			_ => { self.zone(0); zi = self.z.len() - 1; },
		}
		let apex = self.z[zi].apex.clone();
		let some = |r: &mut Rng| *r.pick(&[9usize, 16, 17, 20, 32, 33, 48, 64, 65, 100, 128, 129]);
		match self.r.below(6) {
			0 => { // one RRset of many records
				let n = some(self.r) * if self.r.chance(1, 4) { 2 } else { 1 };
				let ty = *self.r.pick(&[T_A, T_AAAA, T_TXT, T_NS, T_TLSA]);
				let mut rds = vec![];
				for i in 0..n {
					let b = [1 + (i >> 8) as u8, i as u8, self.r.u64() as u8, 9];
					rds.push(match ty {
						T_A => Rd::B(ty, b.to_vec()), T_AAAA => Rd::B(ty, b.repeat(4)),
						T_TXT => Rd::B(ty, b[..2 + self.r.below(2)].to_vec()), T_TLSA => Rd::B(ty, b.repeat(9)[..35].to_vec()),
						_ => { let t = cat(&format!("n{}", i), &apex); let i = self.w.name(&t); Rd::N(ty, i) },
					});
				}
				let owner = cat("big", &apex);
				self.publish(zi, &owner, rds);
			},
			1 => { // many names
				for i in 0..some(self.r) {
					let ty = self.leaf_types();
					let owner = cat(&format!("h{}", i), &apex);
					let rds = self.rdset(ty);
					self.publish(zi, &owner, rds);
				}
			},
			2 => { // a key for every day of the month
				let apex = if apex.len() > 60 { cat("k", &vec![]) } else { cat("keys", &apex) };
				if apex.len() == 1 { zi = 0; }
				self.big_zone(zi, &apex);
				zi = self.z.len() - 1;
				let owner = cat("x", &apex);
				let rds = self.rdset(T_A);
				self.publish(zi, &owner, rds);
			},
			3 => { // long texts
				let most = *self.r.pick(&[1000usize, 4097, 10_000, 30_000, 60_000]);
				let mut rds = vec![];
				for i in 0..self.r.range(1, 3) {
					let mut v = vec![self.r.u64() as u8; self.r.range(most / 2, most)];
					v[i * 300] = i as u8;
					rds.push(Rd::B(T_TXT, v));
				}
				let owner = cat("long", &apex);
				self.publish(zi, &owner, rds);
			},
			4 if apex.len() < 100 => { // many expansions of one wildcard, or of many
				let one = self.r.chance(1, 2);
				for i in 0..self.r.range(4, 24) {
					let base = if one { apex.clone() } else { cat(&format!("w{}", i % 5), &apex) };
					let q = cat(&format!("q{}", i), &base);
					let rds = self.rdset(T_A);
					let o = self.w.name(&q);
					for rd in rds { self.w.add(o, rd); }
					let set = self.w.set(o, T_A);
					let k = self.zkey(zi);
					self.sig(&q, T_A, set, &apex, &k, base.len(), &cat("*", &base));
					self.snug(zi, &q);
				}
			},
			_ => {
				let owner = cat("leaf", &apex);
				let rds = self.rdset(T_TXT);
				self.publish(zi, &owner, rds);
			},
		}
	}
	/// A denial of just that name.
	fn snug(&mut self, zi: usize, q: &Nm) {
		let apex = self.z[zi].apex.clone();
		if let Some((ha, it, salt)) = self.z[zi].n3.clone() {
			let h = nsec3_hash(q, it.min(5), &salt);
			let (mut lo, mut nh) = (h.clone(), h);
			if lo[19] == 0 || nh[19] == 255 { lo[18] = lo[18].saturating_sub(1); nh[18] = nh[18].saturating_add(1); } else { lo[19] -= 1; nh[19] += 1; }
			let owner = cat(&String::from_utf8(b32(&lo)).unwrap(), &apex);
			self.publish(zi, &owner, vec![Rd::Nsec3 { ha, fl: 0, it: it.min(5), salt, nh, types: vec![T_TXT] }]);
		} else {
			let (mut lo, mut hi) = (q.clone(), q.clone());
			lo[0].pop(); lo[0].push(if q[0].last() == Some(&b'0') { b'/' } else { q[0].last().unwrap() - 1 }); lo[0].push(b'z');
			hi[0].push(b'-');
			let next = self.w.name(&hi);
			self.publish(zi, &lo, vec![Rd::Nsec { next, types: vec![T_TXT] }]);
		}
	}
	/// A zone of very many keys, any of which signs.
	fn big_zone(&mut self, parent: usize, apex: &Nm) {
		self.z.push(Z { apex: apex.clone(), parent, keys: vec![], ksk: vec![], zsk: vec![], n3: None, exist: vec![] });
		let zi = self.z.len() - 1;
		for kid in 2..=self.r.range(8, 27) as i64 {
			for fl in [256u16, 257] {
				if fl == 257 && !self.r.chance(1, 3) { continue; }
				let rd = self.w.rdi(Rd::Key { kid, fl, pr: 3, alg: 15 });
				self.z[zi].keys.push(K { kid, fl, pr: 3, alg: 15, rd });
				let i = self.z[zi].keys.len() - 1;
				self.z[zi].zsk.push(i);
			}
		}
		let o = self.w.name(apex);
		for i in 0..self.z[zi].keys.len() { let rd = self.z[zi].keys[i].rd; self.w.rrs.push((o, rd)); }
		let set = self.w.set(o, T_DNSKEY);
		let all: Vec<usize> = (0..self.z[zi].keys.len()).collect();
		let most = if self.r.chance(1, 3) { 20 } else { 2 };
		let nk = self.r.range(1, most);
		let mut dss = vec![];
		for _ in 0..nk {
			let i = *self.r.pick(&all);
			let k = self.z[zi].keys[i].clone();
			let ds = Rd::Ds { tag: self.tag(&k), alg: 15, dt: 2, okey: k.rd, on: o, cut: 0 };
			if !dss.contains(&ds) { dss.push(ds); self.z[zi].ksk.push(i); }
		}
		for i in self.z[zi].ksk.clone() {
			let k = self.z[zi].keys[i].clone();
			self.sig(apex, T_DNSKEY, set.clone(), apex, &k, apex.len(), apex);
		}
		self.publish(parent, apex, dss);
	}
	/// Records which nobody signed, beside, above or below those which somebody did.
	fn unsigned(&mut self) {
		let (o, _) = *self.r.pick(&self.w.rrs);
		let near = self.w.names[o].clone();
		let owner = match self.r.below(8) { 0 => self.below(&near, 1, 1), 1 if !near.is_empty() => near[1..].to_vec(), _ => near };
		let o = self.w.name(&owner);
		let ty = if self.calm || self.r.chance(2, 3) { self.leaf_types() } else { *self.r.pick(&[T_DS, T_NSEC, T_NSEC3, T_DNSKEY]) };
		let ty = if self.r.chance(1, 3) && ty != T_DNSKEY { T_NS } else { ty };
		if !self.w.set(o, ty).is_empty() { return; }
		let rds = match ty {
			T_DS => vec![Rd::Ds { tag: self.r.u64() as u16, alg: 15, dt: 2, okey: NONE, on: NONE, cut: 0 }],
			T_DNSKEY => vec![Rd::Key { kid: 26, fl: 257, pr: 3, alg: 15 }],
			T_NSEC => { let next = self.below(&owner, 0, 1); vec![Rd::Nsec { next: self.w.name(&next), types: vec![T_A] }] },
			T_NSEC3 => vec![Rd::Nsec3 { ha: 1, fl: 0, it: 1, salt: vec![], nh: vec![255; 20], types: vec![] }],
			_ => self.rdset(ty),
		};
		for rd in rds { self.w.add(o, rd); }
	}
	/// Something only a zone's own operator (or the operator of some delegated zone) could make.
	fn malice(&mut self) {
		let zi = self.r.below(self.z.len());
		let apex = self.z[zi].apex.clone();
		let k = self.zkey(zi);
		let vi = self.r.below(self.z.len());
		let victim = self.z[vi].apex.clone();
		match self.r.below(12) {
			0 => { // sign a name outside of the zone
				let owner = match self.r.below(4) {
					0 => self.below(&victim, 0, 2),
					1 if !apex.is_empty() => { let mut n = apex.clone(); n[0].insert(0, b'x'); n[0].truncate(63); n },
					2 if !apex.is_empty() => { let mut n = apex.clone(); n[0].insert(0, b'x'); n[0].truncate(63); cat("a", &n) },
					_ => self.below(&vec![], 0, 2),
				};
				let ty = self.leaf_types();
				let rds = self.rdset(ty);
				self.publish(zi, &owner, rds);
			},
			1 => { // delegate itself, an ancestor, a sibling or a child to a key of its own
				let owner = match self.r.below(4) { 0 => apex.clone(), 1 => victim.clone(), 2 => if apex.is_empty() { apex.clone() } else { apex[1..].to_vec() }, _ => self.below(&apex, 1, 1) };
				let on = self.w.name(&owner);
				let d = Rd::Ds { tag: self.tag(&k), alg: k.alg, dt: 2, okey: k.rd, on, cut: 0 };
				if self.w.set(on, T_DS).is_empty() || self.r.chance(1, 2) { self.publish(zi, &owner, vec![d]); }
				else { let set = self.w.set(on, T_DS); self.sig(&owner, T_DS, set, &apex, &k, owner.len(), &owner); }
			},
			2 => { // forged denial: NSEC spanning a lot
				let (a, b) = (self.below(&apex, 0, 2), self.below(&vec![], 0, 2));
				let next = self.w.name(&b);
				self.publish(zi, &a, vec![Rd::Nsec { next, types: vec![T_A] }]);
			},
			3 => {
				let lo = vec![0u8; 20]; let hi = vec![255u8; 20];
				let (it, salt) = self.z[vi].n3.clone().map(|x| (x.1, x.2)).unwrap_or((0, vec![]));
				let owner = cat(std::str::from_utf8(&b32(&lo)).unwrap(), &apex);
				self.publish(zi, &owner, vec![Rd::Nsec3 { ha: 1, fl: 0, it, salt, nh: hi, types: vec![] }]);
			},
			4 => { // a signature over RRSIGs
				if let Some((o, i)) = self.w.rrs.iter().find(|x| matches!(self.w.rd[x.1], Rd::Sig(_))).cloned() {
					let owner = self.w.names[o].clone();
					let _ = i;
					let set = self.w.set(o, T_RRSIG);
					self.sig(&owner, T_RRSIG, set, &apex, &k, owner.len(), &owner);
				}
			},
			5 => { // sign another zone's DNSKEY set (or one's own with a stranger's key name)
				let o = self.w.name(&victim);
				let set = self.w.set(o, T_DNSKEY);
				let kn = if self.r.chance(1, 2) { apex.clone() } else { victim.clone() };
				self.sig(&victim, T_DNSKEY, set, &kn, &k, victim.len(), &victim);
			},
			6 => { // one's own key, somebody else's name as the signer
				let owner = self.below(&victim, 0, 1);
				let o = self.w.name(&owner);
				let ty = self.leaf_types();
				for rd in self.rdset(ty) { self.w.add(o, rd); }
				let set = self.w.set(o, ty);
				let i = self.sig(&owner, ty, set, &victim, &k, Self::nlab(&owner), &owner);
				if self.r.chance(1, 2) { let vk = self.zkey(vi); let t = self.tag(&vk); if let Rd::Sig(s) = &mut self.w.rd[i] { s.tag = t; s.alg = vk.alg; } }
			},
			7 => { // unusual label counts, honestly signed
				let owner = self.below(&apex, 1, 2);
				let o = self.w.name(&owner);
				let ty = *self.r.pick(&[T_TXT, T_DS, T_NSEC, T_NSEC3, T_CNAME, T_TXT]);
				let rds = match ty {
					T_DS => vec![Rd::Ds { tag: self.tag(&k), alg: k.alg, dt: 2, okey: k.rd, on: o, cut: 0 }],
					T_NSEC => { let nx = self.below(&apex, 0, 1); let next = self.w.name(&nx); vec![Rd::Nsec { next, types: vec![] }] },
					T_NSEC3 => vec![Rd::Nsec3 { ha: 1, fl: 0, it: 0, salt: vec![], nh: vec![255; 20], types: vec![] }],
					t => self.rdset(t),
				};
				for rd in rds { self.w.add(o, rd); }
				let set = self.w.set(o, ty);
				let lab = *self.r.pick(&[0usize, owner.len() - 1, owner.len() + 1, 255, 1]);
				let on = if lab < owner.len() { cat("*", &trail(&owner, lab)) } else { owner.clone() };
				self.sig(&owner, ty, set, &apex, &k, lab, &on);
			},
			8 => { // a signature over nothing
				let owner = self.below(&apex, 0, 2);
				let ty = *self.r.pick(&[T_TXT, T_DS, T_A, 1234, 65535, 0, 43]);
				let o = self.w.name(&owner);
				if self.w.set(o, ty).is_empty() {
					let lab = *self.r.pick(&[owner.len(), owner.len(), 0, 255]);
					self.sig(&owner, ty, vec![], &apex, &k, lab, &owner);
				}
			},
			9 => { // a literal wildcard owner
				let b = self.below(&apex, 0, 1);
				let owner = cat("*", &b);
				let ty = self.leaf_types();
				let rds = self.rdset(ty);
				self.publish(zi, &owner, rds);
			},
			10 => { // an extra signature by another key of the zone, or by a key not in it
				if let Some(i) = self.pick_sig(|s| s.ct != T_RRSIG) {
					let (o, ri) = self.w.rrs[i];
					let mut s = if let Rd::Sig(s) = &self.w.rd[ri] { s.clone() } else { return };
					let kn = self.w.names[s.kn].clone();
					if let Some(z) = self.z.iter().position(|z| z.apex == kn) {
						let ki = self.r.below(self.z[z].keys.len());
						let k = self.z[z].keys[ki].clone();
						s.alg = k.alg; s.tag = self.tag(&k); s.by = k.kid;
						if self.r.chance(1, 6) { s.by = 27; }
						if s.by > 50 && self.r.chance(1, 2) { s.alg = *self.r.pick(&[8u8, 10]); }
						self.w.add(o, Rd::Sig(s));
					}
				}
			},
			_ => { // records nobody signed
				let owner = self.below(&victim, 0, 2);
				let ty = self.leaf_types();
				let o = self.w.name(&owner);
				for rd in self.rdset(ty) { self.w.add(o, rd); }
			},
		}
	}
	fn pick_sig(&mut self, f: impl Fn(&Sig) -> bool) -> Option<usize> {
		let v: Vec<usize> = (0..self.w.rrs.len()).filter(|i| if let Rd::Sig(s) = &self.w.rd[self.w.rrs[*i].1] { f(s) } else { false }).collect();
		if v.is_empty() { None } else { Some(v[self.r.below(v.len())]) }
	}
	/// What someone in the middle can do: edit the records without any key.
	fn edit(&mut self) {
		if self.w.rrs.is_empty() { return; }
		let i = self.r.below(self.w.rrs.len());
		let rsa = self.w.rd.iter().any(|x| if let Rd::Sig(s) = x { s.by > 50 && s.by < 60 } else { false });
		match if rsa && self.r.chance(1, 4) { 13 } else { self.r.below(13) } {
			0 | 1 => { self.w.rrs.remove(i); },
			2 => { let x = self.w.rrs[i]; self.w.rrs.push(x); },
			3 => if let Some(i) = self.pick_sig(|_| true) {
				let (o, ri) = self.w.rrs[i];
				if let Rd::Sig(mut s) = self.w.rd[ri].clone() { s.by = 0; let n = self.w.rdi(Rd::Sig(s)); self.w.rrs[i] = (o, n); }
			},
			4 | 5 => if let Some(i) = self.pick_sig(|_| true) { // change a header field
				let (o, ri) = self.w.rrs[i];
				if let Rd::Sig(mut s) = self.w.rd[ri].clone() {
					let f = self.r.below(9);
					let nx = self.below(&vec![], 0, 2);
					match f {
						0 => s.ottl ^= 1 << self.r.below(32), 1 => s.exp ^= 1 << self.r.below(32), 2 => s.inc ^= 1 << self.r.below(32),
						3 => s.lab = s.lab.wrapping_sub(1), 4 => s.lab = s.lab.wrapping_add(1), 5 => s.tag = wrong_tag(&mut self.r, s.tag),
						6 => s.alg = *self.r.pick(&[5u8, 8, 10, 13, 14, 15, 16]), 7 => s.ct = *self.r.pick(&[T_A, T_TXT, T_DS, T_DNSKEY, T_NSEC, T_RRSIG, T_CNAME]),
						_ => s.kn = self.w.name(&nx),
					}
					s.mh = false; // almost surely no longer what was signed
					if let Rd::Sig(orig) = &self.w.rd[ri] { if { let mut a = s.clone(); a.mh = orig.mh; a == *orig } { return; } }
					let n = self.w.rdi(Rd::Sig(s)); self.w.rrs[i] = (o, n);
				}
			},
			6 | 7 => { // change a record's data
				let (o, ri) = self.w.rrs[i];
				let nd = match self.w.rd[ri].clone() {
					Rd::B(t, _) => self.data(t), Rd::N(t, _) => self.data(t),
					Rd::Key { kid, fl, pr, alg } => match self.r.below(4) { 0 => Rd::Key { kid, fl: fl ^ (1 << self.r.below(16)), pr, alg }, 1 => Rd::Key { kid, fl, pr: pr ^ 1, alg }, 2 => Rd::Key { kid: 26, fl, pr, alg: 15 }, _ => Rd::Key { kid, fl, pr, alg: 13 } },
					Rd::Ds { tag, alg, dt, okey, on, cut } => match self.r.below(4) { 0 => Rd::Ds { tag: wrong_tag(&mut self.r, tag), alg, dt, okey, on, cut }, 3 => Rd::Ds { tag, alg, dt, okey, on, cut: *self.r.pick(&[-1i8, -16, -28, -31, -32, 1, 16]) }, 1 => Rd::Ds { tag, alg, dt, okey: NONE, on: NONE, cut: 0 }, _ => Rd::Ds { tag, alg, dt: dt ^ 3, okey, on, cut } },
					Rd::Nsec { next: _, types } => { let nx = self.below(&vec![], 0, 2); let next = self.w.name(&nx); Rd::Nsec { next, types } },
					Rd::Nsec3 { ha, fl, it, salt, types, .. } => Rd::Nsec3 { ha, fl, it, salt, nh: vec![255; 20], types },
					Rd::Sig(_) => return,
				};
				let n = self.w.rdi(nd); self.w.rrs[i] = (o, n);
			},
			8 => { // add a record to somebody's RRset
				let (o, ri) = self.w.rrs[i];
				let ty = self.w.rd[ri].ty();
				if ![T_RRSIG, T_NSEC, T_NSEC3, T_DS, T_DNSKEY].contains(&ty) { let d = self.data(ty); self.w.add(o, d); }
				else if ty == T_DNSKEY { self.w.add(o, Rd::Key { kid: 26, fl: 257, pr: 3, alg: 15 }); }
				else if ty == T_DS { let k = self.w.rdi(Rd::Key { kid: 26, fl: 257, pr: 3, alg: 15 }); let tag = self.w.key_tag(&self.w.rd[k].clone()); self.w.add(o, Rd::Ds { tag, alg: 15, dt: 2, okey: k, on: o, cut: 0 }); }
			},
			9 | 10 => { // move an RRset and its signatures to another name
				let (o, ri) = self.w.rrs[i];
				let mut ty = self.w.rd[ri].ty();
				if let Rd::Sig(s) = &self.w.rd[ri] { ty = s.ct; }
				let old = self.w.names[o].clone();
				let to = match self.r.below(4) {
					0 if !old.is_empty() => { let mut n = old.clone(); n[0] = self.label().into_bytes(); n },
					1 => self.below(&old, 1, 1),
					2 if !old.is_empty() => old[1..].to_vec(),
					_ => self.below(&vec![], 0, 2),
				};
				let t = self.w.name(&to);
				let only_sig = self.r.chance(1, 8);
				for j in 0..self.w.rrs.len() {
					let (oo, rr) = self.w.rrs[j];
					if oo != o { continue; }
					let is_sig = if let Rd::Sig(s) = &self.w.rd[rr] { s.ct == ty } else { false };
					if is_sig || (!only_sig && self.w.rd[rr].ty() == ty) { self.w.rrs[j].0 = t; }
				}
			},
			13 => { // another algorithm's number and hash, by the same key
				if let Some(i) = self.pick_sig(|s| s.by > 50 && (s.alg == 8 || s.alg == 10)) {
					let (o, ri) = self.w.rrs[i];
					if let Rd::Sig(mut s) = self.w.rd[ri].clone() { s.alg = 18 - s.alg; let n = self.w.rdi(Rd::Sig(s)); self.w.rrs[i] = (o, n); }
				}
			},
			11 => { // drop every record of one type at a name
				let (o, ri) = self.w.rrs[i];
				let ty = self.w.rd[ri].ty();
				let rd = self.w.rd.clone();
				self.w.rrs.retain(|(oo, rr)| *oo != o || rd[*rr].ty() != ty);
			},
			_ => { // replace the signer's key by another published one
				if let Some(i) = self.pick_sig(|s| s.by > 0) {
					let (o, ri) = self.w.rrs[i];
					if let Rd::Sig(mut s) = self.w.rd[ri].clone() { s.by = *self.r.pick(&[1i64, 2, 3, 4, 26]); let n = self.w.rdi(Rd::Sig(s)); self.w.rrs[i] = (o, n); }
				}
			},
		}
	}
}

/// A root key of one's own in the place of the anchored one.
pub fn rogue_root(w: &mut World, kid: i64) {
	let alg = keys::key(kid).alg;
	let mut tag = 0;
	for x in w.rd.iter_mut() { if let Rd::Key { kid: k, fl, pr, alg: a } = x { if *k == 1 { *k = kid; *a = alg; tag = keys::key_tag(*fl, *pr, alg, &keys::key(kid).public); } } }
	for x in w.rd.iter_mut() { if let Rd::Sig(s) = x { if s.by == 1 { s.by = kid; s.tag = tag; s.alg = alg; } } }
}
/// DS records for the root's keys, at the root, in the proof itself. Signed by such a key, or not.
pub fn root_ds(w: &mut World, r: &mut Rng) {
	let root = w.name(&vec![]);
	for i in w.set(root, T_DNSKEY) {
		let (kid, alg) = if let Rd::Key { kid, alg, .. } = &w.rd[i] { (*kid, *alg) } else { continue };
		let tag = w.key_tag(&w.rd[i].clone());
		let d = w.add(root, Rd::Ds { tag, alg, dt: *r.pick(&[2u8, 2, 2, 1, 4]), okey: i, on: root, cut: 0 });
		if r.chance(1, 2) { w.add(root, Rd::Sig(Sig { ct: T_DS, alg, lab: 0, ottl: 1000, exp: 1_800_000_000, inc: 1_600_000_000, tag, kn: root, by: kid, mh: true, on: root, set: vec![d] })); }
	}
}
pub fn gen(prof: &str, r: &mut Rng) -> J {
	let calm = match prof { "honest" => true, "" => r.chance(1, 6), _ => r.chance(1, 12) };
	let cs = if r.chance(1, 2) { 0 } else { r.u64() % 1_000_000 };
	let calm = calm || prof == "large";
	let mut g = G { r, w: World::default(), z: vec![], prof, next_kid: 1, calm };
	g.zone(0);
	if prof == "large" { g.large(); return finish(g.w, g.r, cs); }
	let nz = *g.r.pick(&[0usize, 1, 1, 2, 2, 3, 4]);
	for _ in 0..nz { let p = g.r.below(g.z.len()); g.zone(p); }
	let nl = *g.r.pick(&[1usize, 1, 1, 2, 3]);
	for _ in 0..nl { g.leaf(); }
	if g.r.chance(1, 4) { for _ in 0..g.r.range(1, 3) { g.unsigned(); } }
	if !calm {
		let nm = if prof == "malice" { g.r.range(1, 3) } else { *g.r.pick(&[0usize, 0, 0, 1, 1, 2]) };
		for _ in 0..nm { g.malice(); }
		let ne = if prof == "window" { *g.r.pick(&[0usize, 0, 0, 1]) } else { *g.r.pick(&[0usize, 0, 0, 1, 1, 2]) };
		for _ in 0..ne { g.edit(); }
		if g.r.chance(1, 50) {
			if g.r.chance(2, 3) { rogue_root(&mut g.w, 26); }
			root_ds(&mut g.w, g.r);
		}
	}
	if prof == "order" || prof == "dup" || g.r.chance(1, 20) {
		for _ in 0..g.r.below(4) { let i = g.r.below(g.w.rrs.len().max(1)); if i < g.w.rrs.len() { let x = g.w.rrs[i]; g.w.rrs.push(x); } }
	}
	finish(g.w, g.r, cs)
}
fn finish(mut w: World, r: &mut Rng, cs: u64) -> J {
	if r.chance(5, 6) { let mut v = std::mem::take(&mut w.rrs); r.shuffle(&mut v); w.rrs = v; }
	let mut j = w.to_json();
	if cs != 0 { j.set("cs", n(cs as i64)); }
	j
}

fn wrong_tag(r: &mut Rng, t: u16) -> u16 { match r.below(7) { 0 => 0, 1 => t.swap_bytes(), 2 => !t, 3 => 65535, 4 => t & 255, _ => t ^ 1 << r.below(16) } }
