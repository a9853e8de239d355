//! Builds signed zones. Key 1 is the root key that verification builds trust.
use crate::world::*;
use dnssec_prover::rr::*;
use dnssec_prover::ser::parse_rr_stream;
use dnssec_prover::validation::*;

pub struct B { pub w: World }
pub const EXP: u32 = 2_000_000_000; pub const INC: u32 = 1_500_000_000;
impl B {
	/// A root zone, whose key is returned.
	pub fn new() -> (B, usize) {
		let mut b = B { w: World::default() };
		let k = b.key(".", 1, 257);
		b.sig(".", T_DNSKEY, ".", k);
		(b, k)
	}
	pub fn n(&mut self, s: &str) -> usize { self.w.name(&nm(s)) }
	pub fn key(&mut self, zone: &str, kid: i64, fl: u16) -> usize { self.key_with(zone, kid, fl, 3, crate::keys::key(kid).alg) }
	pub fn key_with(&mut self, zone: &str, kid: i64, fl: u16, pr: u8, alg: u8) -> usize {
		let z = self.n(zone);
		self.w.add(z, Rd::Key { kid, fl, pr, alg })
	}
	pub fn ds(&mut self, zone: &str, key: usize, dt: u8) -> usize {
		let z = self.n(zone);
		let (tag, alg) = (self.w.key_tag(&self.w.rd[key]), if let Rd::Key { alg, .. } = self.w.rd[key] { alg } else { panic!() });
		self.w.add(z, Rd::Ds { tag, alg, dt, okey: key, on: z })
	}
	pub fn txt(&mut self, owner: &str, x: &[u8]) -> usize { let o = self.n(owner); self.w.add(o, Rd::B(T_TXT, x.to_vec())) }
	/// Signs all the records present for (owner, ty).
	pub fn sig(&mut self, owner: &str, ty: u16, zone: &str, key: usize) -> usize { self.sig_with(owner, ty, zone, key, |_| {}) }
	pub fn sig_with<F: FnOnce(&mut Sig)>(&mut self, owner: &str, ty: u16, zone: &str, key: usize, f: F) -> usize {
		let (o, z) = (self.n(owner), self.n(zone));
		let (kid, alg) = if let Rd::Key { kid, alg, .. } = self.w.rd[key] { (kid, alg) } else { panic!() };
		let mut s = Sig { ct: ty, alg, lab: self.w.names[o].len() as u8, ottl: 3600, exp: EXP, inc: INC, tag: self.w.key_tag(&self.w.rd[key]), kn: z,
			by: kid, mh: true, on: o, set: self.w.set(o, ty) };
		f(&mut s);
		self.w.add(o, Rd::Sig(s))
	}
	/// The records at `owner` are what the wildcard `*.<closest>` expands to.
	pub fn wild(&mut self, owner: &str, ty: u16, closest: &str, zone: &str, key: usize) -> usize {
		let on = self.n(&format!("*.{}", closest));
		let lab = nm(closest).len() as u8;
		self.sig_with(owner, ty, zone, key, |s| { s.on = on; s.lab = lab; })
	}
	/// A child zone with one key, which is returned.
	pub fn zone(&mut self, parent: &str, pkey: usize, child: &str, kid: i64) -> usize {
		let k = self.key(child, kid, 257);
		self.ds(child, k, 2);
		self.sig(child, T_DS, parent, pkey);
		self.sig(child, T_DNSKEY, child, k);
		k
	}
	pub fn nsec(&mut self, owner: &str, next: &str, zone: &str, key: usize) {
		let (o, n) = (self.n(owner), self.n(next));
		self.w.add(o, Rd::Nsec { next: n, types: vec![1, 46, 47] });
		self.sig(owner, T_NSEC, zone, key);
	}
	/// An NSEC3 record covering just `name`.
	pub fn nsec3(&mut self, name: &str, zone: &str, key: usize, fl: u8, it: u16, salt: &[u8]) {
		let h = nsec3_hash(&nm(name), it, salt);
		let (mut lo, mut hi) = (h.clone(), h);
		let l = lo.len() - 1;
		assert!(lo[l] > 0 && hi[l] < 255);
		lo[l] -= 1; hi[l] += 1;
		let owner = format!("{}.{}", String::from_utf8(b32(&lo)).unwrap().to_lowercase(), zone.trim_start_matches('.'));
		let o = self.n(&owner);
		self.w.add(o, Rd::Nsec3 { ha: 1, fl, it, salt: salt.to_vec(), nh: hi, types: vec![1, 46] });
		self.sig(&owner, T_NSEC3, zone, key);
	}
	pub fn rrs(&self) -> Vec<RR> { parse_rr_stream(&self.w.bytes(0)).expect("parses") }
	/// The verdict: the records returned, sorted.
	pub fn verify(&self) -> Result<(Vec<RR>, u64, u64, u32), ValidationError> {
		let rrs = self.rrs();
		let v = verify_rr_stream(&rrs)?;
		let mut out: Vec<RR> = v.verified_rrs.iter().map(|r| (*r).clone()).collect();
		out.sort();
		Ok((out, v.valid_from, v.expires, v.max_cache_ttl))
	}
	pub fn ok(&self) -> bool { self.verify().is_ok() }
}
pub fn check(what: &str, ok: bool) {
	if !ok { println!("FAILED: {}", what); std::process::exit(1); }
	println!("ok: {}", what);
}
