//! Records as the specification sees them (Wire.tla): [t, n, fields]. `dump` and `build` convert
//! from and to the crate's own records, field by field; the encoder here is independent of it.
use crate::json::*;
use crate::obj;
use crate::rng::Rng;
use crate::world::*;
use dnssec_prover::rr::*;
use dnssec_prover::ser::*;

pub fn jn(n: &Nm) -> J { J::Arr(n.iter().map(|l| J::b(l)).collect()) }
pub fn nj(j: &J) -> Nm { j.arr().iter().map(|l| l.bytes()).collect() }
fn labels(n: &Name) -> J {
	let t = n.as_str();
	if t == "." { return J::Arr(vec![]); }
	let t = t.strip_suffix('.').unwrap_or(t);
	J::Arr(t.split('.').map(|l| J::b(l.as_bytes())).collect())
}
pub fn text(n: &Nm) -> String { show(n) }
pub fn name(j: &J) -> Name { text(&nj(j)).try_into().unwrap_or_else(|_| panic!("harness: bad name {}", j)) }
fn types(m: &NSecTypeMask) -> J { J::Arr((0..=65535u16).filter(|t| m.contains_type(*t)).map(|t| n(t)).collect()) }
fn mask(j: &J) -> NSecTypeMask { NSecTypeMask::from_types(&j.arr().iter().map(|t| t.int() as u16).collect::<Vec<_>>()) }

pub fn dump(r: &RR) -> J {
	match r {
		RR::A(x) => obj! { "t" => n(1), "n" => labels(&x.name), "x" => J::b(&x.address) },
		RR::AAAA(x) => obj! { "t" => n(28), "n" => labels(&x.name), "x" => J::b(&x.address) },
		RR::NS(x) => obj! { "t" => n(2), "n" => labels(&x.name), "tn" => labels(&x.name_server) },
		RR::CName(x) => obj! { "t" => n(5), "n" => labels(&x.name), "tn" => labels(&x.canonical_name) },
		RR::DName(x) => obj! { "t" => n(39), "n" => labels(&x.name), "tn" => labels(&x.delegation_name) },
		RR::Txt(x) => obj! { "t" => n(16), "n" => labels(&x.name), "x" => J::b(&x.data) },
		RR::TLSA(x) => obj! { "t" => n(52), "n" => labels(&x.name), "u" => n(x.cert_usage), "s" => n(x.selector), "m" => n(x.data_ty), "x" => J::b(&x.data) },
		RR::DnsKey(x) => obj! { "t" => n(48), "n" => labels(&x.name), "fl" => n(x.flags), "pr" => n(x.protocol), "alg" => n(x.alg), "x" => J::b(&x.pubkey) },
		RR::DS(x) => obj! { "t" => n(43), "n" => labels(&x.name), "tag" => n(x.key_tag), "alg" => n(x.alg), "dt" => n(x.digest_type), "x" => J::b(&x.digest) },
		RR::RRSig(x) => obj! { "t" => n(46), "n" => labels(&x.name), "ct" => n(x.ty), "alg" => n(x.alg), "lab" => n(x.labels), "ottl" => pair(x.orig_ttl as u64),
			"exp" => pair(x.expiration as u64), "inc" => pair(x.inception as u64), "tag" => n(x.key_tag), "kn" => labels(&x.key_name), "x" => J::b(&x.signature) },
		RR::NSec(x) => obj! { "t" => n(47), "n" => labels(&x.name), "next" => labels(&x.next_name), "types" => types(&x.types) },
		RR::NSec3(x) => obj! { "t" => n(50), "n" => labels(&x.name), "ha" => n(x.hash_algo), "fl" => n(x.flags), "it" => n(x.hash_iterations),
			"salt" => J::b(&x.salt), "nh" => J::b(&x.next_name_hash), "types" => types(&x.types) },
	}
}
pub fn build(j: &J) -> RR {
	let nm = name(j.at("n"));
	let x = || j.at("x").bytes();
	let u = |k: &str| j.i(k);
	match u("t") {
		1 => A { name: nm, address: x().try_into().expect("harness: address") }.into(),
		28 => AAAA { name: nm, address: x().try_into().expect("harness: address") }.into(),
		2 => NS { name: nm, name_server: name(j.at("tn")) }.into(),
		5 => CName { name: nm, canonical_name: name(j.at("tn")) }.into(),
		39 => DName { name: nm, delegation_name: name(j.at("tn")) }.into(),
		16 => Txt { name: nm, data: x() }.into(),
		52 => TLSA { name: nm, cert_usage: u("u") as u8, selector: u("s") as u8, data_ty: u("m") as u8, data: x() }.into(),
		48 => DnsKey { name: nm, flags: u("fl") as u16, protocol: u("pr") as u8, alg: u("alg") as u8, pubkey: x() }.into(),
		43 => DS { name: nm, key_tag: u("tag") as u16, alg: u("alg") as u8, digest_type: u("dt") as u8, digest: x() }.into(),
		46 => RRSig { name: nm, ty: u("ct") as u16, alg: u("alg") as u8, labels: u("lab") as u8, orig_ttl: unpair(j.at("ottl")) as u32, expiration: unpair(j.at("exp")) as u32,
			inception: unpair(j.at("inc")) as u32, key_tag: u("tag") as u16, key_name: name(j.at("kn")), signature: x() }.into(),
		47 => NSec { name: nm, next_name: name(j.at("next")), types: mask(j.at("types")) }.into(),
		50 => NSec3 { name: nm, hash_algo: u("ha") as u8, flags: u("fl") as u8, hash_iterations: u("it") as u16, salt: j.at("salt").bytes(),
			next_name_hash: j.at("nh").bytes(), types: mask(j.at("types")) }.into(),
		t => panic!("harness: type {}", t),
	}
}

/// Names get written through this, to allow for letter case and compression.
pub struct Enc { pub out: Vec<u8>, pub upper: u64, pub compress: u64, pub seen: Vec<(Nm, usize)>, pub r: Rng }
impl Enc {
	pub fn new(r: &mut Rng) -> Enc { Enc { out: Vec::new(), upper: 0, compress: 0, seen: Vec::new(), r: Rng::new(r.u64()) } }
	pub fn plain() -> Enc { Enc { out: Vec::new(), upper: 0, compress: 0, seen: Vec::new(), r: Rng::new(0) } }
	pub fn name(&mut self, nm: &Nm) {
		for i in 0..nm.len() {
			let rest = nm[i..].to_vec();
			if self.compress > 0 && self.r.chance(self.compress, 10) {
				let c: Vec<usize> = self.seen.iter().filter(|(x, _)| *x == rest).map(|x| x.1).collect();
				if !c.is_empty() {
					let p = *self.r.pick(&c);
					self.out.push(0xc0 | (p >> 8) as u8); self.out.push(p as u8);
					return;
				}
			}
			if self.out.len() < 0x4000 { self.seen.push((rest, self.out.len())); }
			self.out.push(nm[i].len() as u8);
			for b in &nm[i] {
				let b = if self.upper > 0 && self.r.chance(self.upper, 10) { b.to_ascii_uppercase() } else { *b };
				self.out.push(b);
			}
		}
		if self.compress > 0 && self.out.len() < 0x4000 { self.seen.push((vec![], self.out.len())); }
		self.out.push(0);
	}
	fn u16(&mut self, x: i64) { self.out.extend_from_slice(&(x as u16).to_be_bytes()); }
	fn u32(&mut self, j: &J) { self.out.extend_from_slice(&(unpair(j) as u32).to_be_bytes()); }
	fn u8(&mut self, x: i64) { self.out.push(x as u8); }
	pub fn rdata(&mut self, j: &J) {
		if let Some(x) = j.get("raw") { self.out.extend(x.bytes()); return; }
		let u = |k: &str| j.i(k);
		match u("t") {
			2 | 5 | 39 => self.name(&nj(j.at("tn"))),
			16 => self.out.extend(txt_rdata(&j.at("x").bytes())),
			52 => { self.u8(u("u")); self.u8(u("s")); self.u8(u("m")); },
			48 => { self.u16(u("fl")); self.u8(u("pr")); self.u8(u("alg")); },
			43 => { self.u16(u("tag")); self.u8(u("alg")); self.u8(u("dt")); },
			46 => {
				self.u16(u("ct")); self.u8(u("alg")); self.u8(u("lab"));
				self.u32(j.at("ottl")); self.u32(j.at("exp")); self.u32(j.at("inc")); self.u16(u("tag"));
				self.name(&nj(j.at("kn")));
			},
			47 => self.name(&nj(j.at("next"))),
			50 => {
				self.u8(u("ha")); self.u8(u("fl")); self.u16(u("it"));
				let (s, h) = (j.at("salt").bytes(), j.at("nh").bytes());
				self.u8(s.len() as i64); self.out.extend(s); self.u8(h.len() as i64); self.out.extend(h);
			},
			_ => {},
		}
		if u("t") != 16 { if let Some(x) = j.get("x") { self.out.extend(x.bytes()); } }
		if let Some(t) = j.get("types") { self.out.extend(bitmap(&t.arr().iter().map(|t| t.int() as u16).collect::<Vec<_>>())); }
	}
	pub fn rr(&mut self, j: &J, ttl: u32) {
		self.name(&nj(j.at("n")));
		self.u16(j.i("t"));
		self.u16(1);
		self.out.extend_from_slice(&ttl.to_be_bytes());
		let p = self.out.len();
		self.u16(0);
		self.rdata(j);
		let l = (self.out.len() - p - 2) as u16;
		self.out[p..p + 2].copy_from_slice(&l.to_be_bytes());
	}
}
pub fn rdata(j: &J) -> Vec<u8> { let mut e = Enc::plain(); e.rdata(j); e.out }

// ---------------------------------------------------------------- generators

pub fn gen_label(r: &mut Rng) -> Vec<u8> {
	let len = match r.below(20) { 0 => 63, 1 => 62, 2 => r.range(20, 63), 3..=9 => 1, _ => r.range(1, 8) };
	let weird = r.chance(1, 6);
	(0..len).map(|_| if weird {
		loop { let b = r.range(33, 126) as u8; if b != b'.' && b != b'"' && !b.is_ascii_uppercase() { break b } }
	} else { *r.pick(b"abcxyz019-_*") }).collect()
}
/// A valid name; sometimes as long as can be.
pub fn gen_name(r: &mut Rng) -> Nm {
	let k = match r.below(30) { 0 => 0, 1 => 127, 2 => 40, 3 => r.range(5, 60), _ => r.range(1, 4) };
	let mut v: Nm = Vec::new();
	let (mut tl, max) = (0, if r.chance(1, 3) { 255 } else { 254 });
	for _ in 0..k {
		let mut l = if k > 20 { vec![*r.pick(b"abcxyz")] } else { gen_label(r) };
		if r.chance(1, 40) && 255 - tl > 1 { l = vec![b'q'; (255 - tl - 1).min(63)]; }
		if tl + l.len() + 1 > max { break; }
		tl += l.len() + 1;
		v.push(l);
	}
	v
}
fn gen_types(r: &mut Rng) -> Vec<u16> {
	let mut v: Vec<u16> = (0..r.range(1, 6)).map(|_| match r.below(8) { 0 => r.u64() as u16, 1 => *r.pick(&[0, 7, 8, 255, 256, 257, 65535, 65280, 248, 511]), _ => *r.pick(&[1, 2, 5, 16, 28, 39, 43, 46, 47, 48, 50, 52]) }).collect();
	v.sort(); v.dedup();
	v
}
pub fn gen_u32(r: &mut Rng) -> u32 { match r.below(8) { 0 => 0, 1 => u32::MAX, 2 => 1 << 31, 3 => r.below(10) as u32, 4 => 65535, 5 => 65536, _ => r.u64() as u32 } }
pub fn gen_u16(r: &mut Rng) -> u16 { match r.below(6) { 0 => 0, 1 => u16::MAX, 2 => 256, _ => r.u64() as u16 } }
pub fn gen_blob(r: &mut Rng, max: usize) -> Vec<u8> {
	let l = match r.below(8) { 0 => 0, 1 => 1, 2 => r.range(0, max), _ => r.range(0, 40.min(max)) };
	if r.chance(1, 2) { r.bytes(l) } else { (0..l).map(|_| *r.pick(&[0u8, 1, 97, 255])).collect() }
}
pub fn gen_text(r: &mut Rng) -> Vec<u8> {
	let l = match r.below(16) { 0 => 0, 1 => 255, 2 => 256, 3 => 254, 4 => 510, 5 => 511, 6 => r.range(200, 600), _ => r.range(1, 12) };
	match r.below(8) {
		0 => r.bytes(l),
		1 => "a\u{e9}\u{20ac}\u{1f600}\u{7f}\u{80}\u{9f}\u{a0}\u{2028}".chars().cycle().skip(r.below(9)).take(r.range(1, 9)).collect::<String>().into_bytes(),
		2 => (0..l).map(|_| *r.pick(b"a\"\\/\n\t\x00\x1f \x7f{}[],:")).collect(),
		3 => (0..l).map(|_| *r.pick(&[0u8, 255, 254, 1])).collect(),
		_ => (0..l).map(|_| r.range(32, 126) as u8).collect(),
	}
}
pub const TYPES: [u16; 12] = [1, 2, 5, 16, 28, 39, 43, 46, 47, 48, 50, 52];
pub fn gen_rr_at(r: &mut Rng, t: u16, nm: &Nm) -> J {
	let mut o = obj! { "t" => n(t), "n" => jn(nm) };
	let mut put = |k: &str, v: J| o.set(k, v);
	match t {
		1 => put("x", J::b(&r.bytes(4))), 28 => put("x", J::b(&r.bytes(16))),
		2 | 5 | 39 => { let x = gen_name(r); put("tn", jn(&x)) },
		16 => put("x", J::b(&gen_text(r))),
		52 => { put("u", n(r.u64() as u8)); put("s", n(r.u64() as u8)); put("m", n(r.u64() as u8)); put("x", J::b(&gen_blob(r, 300))) },
		48 => { put("fl", n(gen_u16(r))); put("pr", n(r.u64() as u8)); put("alg", n(r.u64() as u8)); put("x", J::b(&gen_blob(r, 300))) },
		43 => { put("tag", n(gen_u16(r))); put("alg", n(r.u64() as u8)); put("dt", n(r.u64() as u8)); put("x", J::b(&gen_blob(r, 64))) },
		46 => {
			put("ct", n(if r.chance(1, 2) { *r.pick(&TYPES) } else { gen_u16(r) })); put("alg", n(r.u64() as u8)); put("lab", n(r.u64() as u8));
			put("ottl", pair(gen_u32(r) as u64)); put("exp", pair(gen_u32(r) as u64)); put("inc", pair(gen_u32(r) as u64));
			put("tag", n(gen_u16(r)));
			let x = gen_name(r);
			put("kn", jn(&x)); put("x", J::b(&gen_blob(r, 256)));
		},
		47 => { let x = gen_name(r); put("next", jn(&x)); put("types", J::Arr(gen_types(r).iter().map(|t| n(*t)).collect())) },
		50 => {
			put("ha", n(r.u64() as u8)); put("fl", n(r.u64() as u8)); put("it", n(gen_u16(r)));
			put("salt", J::b(&gen_blob(r, 255))); put("nh", J::b(&gen_blob(r, 255)));
			put("types", J::Arr(gen_types(r).iter().map(|t| n(*t)).collect()))
		},
		_ => unreachable!(),
	}
	o
}
pub fn gen_rr(r: &mut Rng) -> J { let t = *r.pick(&TYPES); let nm = gen_name(r); gen_rr_at(r, t, &nm) }

/// Damages bytes in one of the ways that matter to a parser.
pub fn damage(r: &mut Rng, b: &mut Vec<u8>) {
	if b.is_empty() { b.extend(r.bytes(3)); return; }
	let p = r.below(b.len());
	match r.below(13) {
		11 => { let q = if r.chance(1, 2) { (p + 1) % b.len() } else { r.below(b.len()) }; b.swap(p, q); },
		12 => { let q = r.below(b.len()); let x = 1 + r.below(255) as u8; b[p] = b[p].wrapping_add(x); b[q] = b[q].wrapping_sub(x); },
		0 => b.truncate(p),
		1 => b[p] = r.u64() as u8,
		2 => b[p] = *r.pick(&[0u8, 1, 63, 64, 127, 128, 191, 192, 193, 255, b'.', b'"', b' ', 46, 32, 33]),
		3 => { b.remove(p); },
		4 => b.insert(p, *r.pick(&[0u8, 1, 2, 192, 12, 255])),
		5 => { b[p] = b[p].wrapping_add(1) },
		6 => { b[p] = b[p].wrapping_sub(1) },
		7 => { let x = r.bytes(2); b.extend(x); },
		8 => { b.push(0) },
		9 => { if p + 1 < b.len() { b[p] = 0xc0; b[p + 1] = r.below(64) as u8; } },
		_ => { let q = r.range(p, (p + 6).min(b.len())); let x: Vec<u8> = b[p..q].to_vec(); for (i, y) in x.into_iter().enumerate() { b.insert(p + i, y); } },
	}
}
/// Damages the type bitmap, names or lengths of a record deliberately.
pub fn gen_parse(prof: &str, r: &mut Rng) -> J {
	let mut e = Enc::new(r);
	e.upper = *r.pick(&[0, 0, 5]);
	match prof {
		"raw" => { // short strings over few byte values, to get everywhere in the name and header syntax
			let k = r.range(0, 26);
			e.out = (0..k).map(|_| *r.pick(&[0u8, 0, 0, 1, 1, 2, 4, 5, 16, 46, 47, 64, 97, 192, 255])).collect();
		},
		"rdata" => { // a well-formed header around arbitrary data
			let nm = gen_name(r);
			let t = if r.chance(1, 12) { gen_u16(r) } else { *r.pick(&TYPES) };
			e.name(&nm);
			e.u16(t as i64); e.u16(if r.chance(1, 20) { *r.pick(&[0, 2, 3, 4, 254, 255, 256, 257, 0x8001, 0x4001, 0x101, 0xff01]) } else { 1 });
			e.out.extend(gen_u32(r).to_be_bytes());
			let d = match r.below(5) {
				0 => { let k = r.range(0, 30); (0..k).map(|_| *r.pick(&[0u8, 0, 1, 1, 2, 4, 5, 97, 255, 32, 33, 192])).collect::<Vec<u8>>() },
				1 if t == 16 => { let mut d = Vec::new(); for _ in 0..r.range(0, 5) { let l = *r.pick(&[0usize, 1, 2, 255, 7]); d.push(l as u8); d.extend(r.bytes(l)); } d },
				2 if t == 47 || t == 50 => {
					let mut d = if t == 47 { wire_name(&gen_name(r)) } else { vec![1, 0, 0, 5, 2, 9, 9, 3, 1, 2, 3] };
					let mut w = 0u8;
					for _ in 0..r.range(0, 4) {
						if r.chance(5, 6) { w = w.wrapping_add(r.range(0, 3) as u8); } else { w = r.u64() as u8; }
						let l = *r.pick(&[0usize, 1, 1, 2, 4, 31, 32, 32, 33, 34, 255]);
						d.push(w); d.push(l as u8);
						let got = if r.chance(1, 8) { r.below(l + 1) } else { l };
						d.extend(r.bytes(got));
						if got > 0 && r.chance(1, 2) { *d.last_mut().unwrap() |= 1; }
					}
					d
				},
				_ => { let mut d = if TYPES.contains(&t) { let mut x = Enc::new(r); x.upper = 3; let j = gen_rr_at(r, t, &vec![]); x.rdata(&j); x.out } else { r.bytes(5) }; if r.chance(2, 3) { damage(r, &mut d); } d },
			};
			let l = match r.below(14) { 0 => d.len().wrapping_sub(1) & 0xffff, 1 => d.len() + 1, _ => d.len() };
			e.u16(l as i64);
			e.out.extend(d);
			if r.chance(1, 4) { let j = gen_rr(r); e.rr(&j, 1); }
		},
		"many" => { // the same records over and over, then something else
			for _ in 0..r.range(1, 2) { let j = gen_rr(r); let t = gen_u32(r); e.rr(&j, t); }
			let unit = e.out.clone();
			e.out.clear();
			for _ in 0..r.range(0, 2) { let j = gen_rr(r); let t = gen_u32(r); e.rr(&j, t); }
			if r.chance(1, 6) { damage(r, &mut e.out); }
			let k = *r.pick(&[1usize, 2, 3, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1023, 1025, 2000, 4095, 4097, 8191, 8193, 10_000, 16_385, 32_768, 65_535, 65_536, 70_000]);
			let k = k.min(4_000_000 / unit.len().max(1)).max(1);
			return obj! { "u" => J::b(&unit), "k" => n(k as i64), "tail" => J::b(&e.out) };
		},
		"big" => {
			let len = *r.pick(&[0usize, 1, 3, 4, 255, 256, 2048, 16384, 65535, 65534, 40000]);
			let t = *r.pick(&[16u16, 48, 52, 43, 46]);
			let mut o = obj! { "t" => n(t), "n" => jn(&gen_name(r)), "tag" => n(1), "fl" => n(2), "pr" => n(3), "alg" => n(4), "dt" => n(5), "u" => n(1), "s" => n(1), "m" => n(1),
				"ct" => n(1), "lab" => n(1), "ottl" => pair(5), "exp" => pair(5), "inc" => pair(5), "kn" => jn(&gen_name(r)) };
			let hd = { o.set("x", J::Arr(vec![])); rdata(&o).len() };
			let body = if t == 16 { len.saturating_sub((len + 255) / 256) } else { len.saturating_sub(hd) };
			let v = r.u64() as u8;
			o.set("x", J::b(&vec![v; body]));
			e.rr(&o, 7);
		},
		_ => {
			for _ in 0..r.range(1, 3) { let j = gen_rr(r); let t = gen_u32(r); e.rr(&j, t); }
			if r.chance(2, 3) { for _ in 0..r.range(1, 2) { damage(r, &mut e.out); } }
		},
	}
	obj! { "b" => J::b(&e.out) }
}
pub fn parse(case: &J) -> J {
	if case.get("u").is_some() {
		let u = case.at("u").bytes();
		let k = case.i("k") as usize;
		let mut b = u.repeat(k);
		b.extend(case.at("tail").bytes());
		return match parse_rr_stream(&b) {
			Ok(v) => {
				let m = parse_rr_stream(&u).map(|u| u.len()).unwrap_or(0);
				let l = (m * k).min(v.len());
				obj! { "res" => s("ok"), "len" => n(v.len() as i64), "first" => J::Arr(v[..m.min(v.len())].iter().map(dump).collect()),
					"again" => J::Bool((m..l).all(|i| v[i] == v[i - m])), "rest" => J::Arr(v[l..].iter().map(dump).collect()) }
			},
			Err(()) => obj! { "res" => s("err") },
		};
	}
	match parse_rr_stream(&case.at("b").bytes()) {
		Ok(v) => obj! { "res" => s("ok"), "rrs" => J::Arr(v.iter().map(dump).collect()) },
		Err(()) => obj! { "res" => s("err") },
	}
}

/// Writing a record after some bytes and before another record, and reading it back.
pub fn gen_write(prof: &str, r: &mut Rng) -> J {
	let mut rr = gen_rr(r);
	if prof == "big" {
		let t = *r.pick(&[16u16, 48, 52, 43, 46]);
		let nm = gen_name(r);
		rr = gen_rr_at(r, t, &nm);
		rr.set("x", J::Arr(vec![]));
		let max = if t == 16 { 65279 } else { 65535 - rdata(&rr).len() };
		let len = match r.below(4) { 0 => max, 1 => max - 1, 2 => r.range(256, 3000), _ => r.below(max + 1) };
		rr.set("x", J::b(&vec![r.u64() as u8; len]));
	}
	if prof == "tag" { // keys whose sums carry
		let nm = gen_name(r);
		rr = gen_rr_at(r, 48, &nm);
		if r.chance(1, 2) { let a = *r.pick(&[5i64, 7, 8, 10, 13, 14, 15]); rr.set("fl", n(*r.pick(&[256u16, 257, 384]))); rr.set("pr", n(3)); rr.set("alg", n(a)); }
		let len = *r.pick(&[32usize, 64, 96, 130, 260, 516, 1028, 2048, 4096, 65531]) + r.below(2);
		let len = len.min(65531);
		let mut x = match r.below(3) { 0 => vec![255; len], 1 => r.bytes(len), _ => (0..len).map(|_| *r.pick(&[255u8, 255, 255, 254, 0])).collect() };
		if r.chance(2, 3) && len < 5000 { // so that adding the carry carries again, or nearly
			let e = len & !1;
			let mut k = obj! { "t" => n(48), "n" => jn(&nm), "fl" => n(rr.i("fl")), "pr" => n(rr.i("pr")), "alg" => n(rr.i("alg")) };
			x[e - 2] = 0; x[e - 1] = 0; k.set("x", J::b(&x));
			let sum: u64 = rdata(&k).iter().enumerate().map(|(i, b)| (*b as u64) << (8 * (1 - i % 2))).sum();
			let want = (0x1_0000 + r.below(3) as u64).wrapping_sub((sum >> 16) + r.below(2) as u64);
			let d = want.wrapping_sub(sum) & 0xffff;
			x[e - 2] = (d >> 8) as u8; x[e - 1] = d as u8;
		}
		rr.set("x", J::b(&x));
	}
	if prof == "types" { // bitmaps
		let k = r.range(0, 40);
		let mut v: Vec<u16> = (0..k).map(|_| match r.below(3) { 0 => r.u64() as u16, 1 => r.below(300) as u16, _ => 256 * r.below(256) as u16 + r.below(256) as u16 }).collect();
		if r.chance(1, 20) { v = (0..=65535).step_by(r.range(200, 260)).collect(); }
		v.sort(); v.dedup();
		let t = *r.pick(&[47u16, 50]);
		let nm = gen_name(r);
		rr = gen_rr_at(r, t, &nm);
		rr.set("types", J::Arr(v.iter().map(|t| n(*t)).collect()));
	}
	obj! { "rr" => rr, "ttl" => pair(gen_u32(r) as u64), "pre" => J::b(&gen_blob(r, 20)), "next" => gen_rr_at(r, 1, &vec![vec![b'n']]), "own" => J::Bool(r.chance(1, 2)) }
}
pub fn write(case: &J) -> J {
	let rr = build(case.at("rr"));
	let pre = case.at("pre").bytes();
	let mut out = pre.clone();
	let ttl = unpair(case.at("ttl")) as u32;
	if *case.at("own") == J::Bool(true) { // through the record type itself rather than the enum
		match &rr {
			RR::A(x) => write_rr(x, ttl, &mut out), RR::AAAA(x) => write_rr(x, ttl, &mut out), RR::NS(x) => write_rr(x, ttl, &mut out),
			RR::Txt(x) => write_rr(x, ttl, &mut out), RR::CName(x) => write_rr(x, ttl, &mut out), RR::DName(x) => write_rr(x, ttl, &mut out),
			RR::TLSA(x) => write_rr(x, ttl, &mut out), RR::DnsKey(x) => write_rr(x, ttl, &mut out), RR::DS(x) => write_rr(x, ttl, &mut out),
			RR::RRSig(x) => write_rr(x, ttl, &mut out), RR::NSec(x) => write_rr(x, ttl, &mut out), RR::NSec3(x) => write_rr(x, ttl, &mut out),
		}
	} else { write_rr(&rr, ttl, &mut out); }
	let end = out.len();
	let next = build(case.at("next"));
	write_rr(&next, 5, &mut out);
	let back = match parse_rr_stream(&out[pre.len().min(out.len())..]) {
		Ok(v) => obj! { "res" => s("ok"), "rrs" => J::Arr(v.iter().map(dump).collect()), "eq" => J::Bool(v.len() == 2 && v[0] == rr && v[1] == next) },
		Err(()) => obj! { "res" => s("err") },
	};
	let tag = if let RR::DnsKey(k) = &rr { k.key_tag() as i64 } else { -1 };
	obj! { "res" => s("ok"), "b" => J::b(&out[..end]), "back" => back, "tag" => n(tag) }
}

/// Names from strings.
pub fn gen_namestr(_prof: &str, r: &mut Rng) -> J {
	let t: String = match r.below(10) {
		0..=3 => { let k = r.range(0, 9); (0..k).map(|_| *r.pick(&['.', '.', 'a', 'B', '"', ' ', '\u{e9}', '-', '\\', '~', '!', '\u{7f}', '\0', '*'])).collect() },
		4 => { let mut n = text(&gen_name(r)); n.pop(); n },
		5 => { // around the limits
			let k = r.range(60, 66);
			let mut t = "x".repeat(k) + ".";
			while t.len() < r.range(1, 260) { let l = r.range(1, 63); t += &"y".repeat(l.min(300usize.saturating_sub(t.len()).max(1))); t += "."; }
			t
		},
		6 => { // a total of 253 to 257 in one-byte labels or large ones
			let tot = r.range(252, 258);
			let l = *r.pick(&[1usize, 2, 3, 62, 63]);
			let mut t = String::new();
			while t.len() + l + 1 <= tot { t += &"k".repeat(l); t += "."; }
			let left = tot - t.len();
			if left >= 2 { t += &"m".repeat(left - 1); t += "."; }
			t
		},
		_ => {
			let t: String = text(&gen_name(r)).chars().map(|c| if r.chance(1, 3) { c.to_ascii_uppercase() } else { c }).collect();
			if r.chance(1, 2) { t } else { let mut c: Vec<char> = t.chars().collect(); let p = r.below(c.len()); match r.below(3) { 0 => c[p] = '.', 1 => c.insert(p, *r.pick(&['.', '"', ' ', '\u{80}', 'z'])), _ => { c.remove(p); } } c.into_iter().collect() }
		},
	};
	let u: Vec<char> = t.chars().collect();
	let ns: Vec<i64> = (0..8).map(|_| match r.below(4) { 0 => r.u64() as u8 as i64, 1 => *r.pick(&[0, 1, 2, 126, 127, 128, 129, 255]), _ => r.below(6) as i64 }).collect();
	obj! { "c" => J::Arr(u.iter().map(|c| n(*c as u32)).collect()), "ns" => J::Arr(ns.into_iter().map(J::Int).collect()) }
}
pub fn namestr(case: &J) -> J {
	let t: String = case.a("c").iter().map(|c| char::from_u32(c.int() as u32).unwrap()).collect();
	let a: Result<Name, ()> = t.clone().try_into();
	let b: Result<Name, ()> = (&t[..]).try_into();
	if a != b { return obj! { "res" => s("differ") }; }
	let nm = match a { Ok(x) => x, Err(()) => return obj! { "res" => s("err") } };
	let up: Result<Name, ()> = t.to_ascii_uppercase().try_into();
	let lo: Result<Name, ()> = t.to_ascii_lowercase().try_into();
	let cases = up.as_ref() == Ok(&nm) && lo.as_ref() == Ok(&nm) && up.unwrap().cmp(&nm) == std::cmp::Ordering::Equal;
	let tr = case.a("ns").iter().map(|k| match nm.trailing_n_labels(k.int() as u8) { Some(x) => J::b(x.as_bytes()), None => J::Arr(vec![J::Int(-1)]) }).collect();
	obj! { "res" => s("ok"), "txt" => J::b(nm.as_str().as_bytes()), "shown" => J::b(format!("{}", nm).as_bytes()), "deref" => J::b((*nm).as_bytes()),
		"labels" => n(nm.labels()), "tr" => J::Arr(tr), "cases" => J::Bool(cases) }
}

/// JSON of a record.
pub fn gen_json(_prof: &str, r: &mut Rng) -> J { let t = if r.chance(1, 3) { 16 } else { *r.pick(&TYPES) }; let nm = gen_name(r); obj! { "rr" => gen_rr_at(r, t, &nm), "own" => J::Bool(r.chance(1, 2)) } }
pub fn json(case: &J) -> J {
	let rr = build(case.at("rr"));
	let t = if *case.at("own") == J::Bool(true) {
		match &rr {
			RR::A(x) => Record::json(x), RR::AAAA(x) => Record::json(x), RR::NS(x) => Record::json(x), RR::Txt(x) => Record::json(x),
			RR::CName(x) => Record::json(x), RR::DName(x) => Record::json(x), RR::TLSA(x) => Record::json(x), RR::DnsKey(x) => Record::json(x),
			RR::DS(x) => Record::json(x), RR::RRSig(x) => Record::json(x), RR::NSec(x) => Record::json(x), RR::NSec3(x) => Record::json(x),
		}
	} else { rr.json() };
	obj! { "res" => s("ok"), "c" => J::Arr(t.chars().map(|c| n(c as u32)).collect()) }
}

/// Comparisons between a few records that are close to each other.
pub fn gen_cmp(prof: &str, r: &mut Rng) -> J {
	let t = if prof == "txt" || r.chance(1, 2) { 16 } else { *r.pick(&TYPES) };
	let nm = gen_name(r);
	let mut v: Vec<J> = Vec::new();
	for _ in 0..r.range(2, 5) {
		let x = if !v.is_empty() && r.chance(1, 2) {
			let mut x: J = r.pick(&v[..]).clone();
			match r.below(4) {
				0 => {},
				1 => { let y = gen_name(r); x.set("n", jn(&y)); },
				_ => if let Some(d) = x.get("x") {
					let mut d = d.bytes();
					let t = x.i("t");
					if t == 16 || t == 52 || t == 48 || t == 43 || t == 46 {
						match r.below(7) {
							0 => { d.push(*r.pick(&[0, 97, 255])); },
							5 if t == 16 => { let k = 255 * r.range(1, 13) + 1 - r.below(3); d.resize(k, 97); },
							6 if d.len() > 255 => { let p = d.len() - 1 - r.below(250); d[p] = d[p].wrapping_add(1); },
							1 => { d.pop(); },
							2 => { if !d.is_empty() { let p = r.below(d.len()); d[p] = d[p].wrapping_add(1); } },
							3 => { let k = r.range(250, 260); d.resize(k, 97); },
							_ => { let k = r.range(505, 515); d.resize(k, 97); },
						}
					} else if !d.is_empty() { let p = r.below(d.len()); d[p] = d[p].wrapping_add(128); }
					x.set("x", J::b(&d));
				} else { x = gen_rr_at(r, t, &nm); },
			}
			x
		} else if r.chance(1, 6) { gen_rr(r) } else { gen_rr_at(r, t, &nm) };
		v.push(x);
	}
	obj! { "rrs" => J::Arr(v) }
}
pub fn cmp(case: &J) -> J {
	let v: Vec<RR> = case.a("rrs").iter().map(build).collect();
	let m = |f: &dyn Fn(&RR, &RR) -> i64| J::Arr(v.iter().map(|a| J::Arr(v.iter().map(|b| J::Int(f(a, b))).collect())).collect());
	let inner = |a: &RR, b: &RR| -> i64 {
		macro_rules! go { ($($k:ident),*) => { match (a, b) { $((RR::$k(x), RR::$k(y)) => { let c = x.cmp(y) as i64; assert_eq!(Some(c), x.partial_cmp(y).map(|o| o as i64)); assert_eq!(c == 0, x == y); c },)* _ => 2 } } }
		go!(A, AAAA, NS, Txt, CName, DName, TLSA, DnsKey, DS, RRSig, NSec, NSec3)
	};
	obj! { "res" => s("ok"), "cmp" => m(&|a, b| a.cmp(b) as i64), "part" => m(&|a, b| a.partial_cmp(b).map(|o| o as i64).unwrap_or(2)),
		"eq" => m(&|a, b| (a == b) as i64), "inner" => m(&inner) }
}
