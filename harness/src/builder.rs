//! The proof builder, driven with messages through its public interface.
use crate::json::*;
use crate::obj;
use crate::rng::Rng;
use crate::wire::*;
use crate::world::*;
use dnssec_prover::query::*;

pub fn buf(b: &[u8]) -> QueryBuf {
	let mut q = QueryBuf::new_zeroed(b.len() as u16);
	q.copy_from_slice(b);
	q
}
/// A message: header, one question, and the sections. `hdr` gets its say after the counts are in.
pub struct Msg { pub e: Enc, pub an: u16, pub ns: u16, pub ar: u16 }
impl Msg {
	pub fn new(r: &mut Rng, qn: &Nm, qt: u16) -> Msg {
		let mut e = Enc::new(r);
		e.out = vec![0, 0, 0x81, 0xa0, 0, 1, 0, 0, 0, 0, 0, 0];
		e.compress = *r.pick(&[0, 8, 10, 10]);
		e.upper = *r.pick(&[0, 0, 3]);
		e.name(qn);
		e.out.extend_from_slice(&qt.to_be_bytes());
		e.out.extend_from_slice(&[0, 1]);
		Msg { e, an: 0, ns: 0, ar: 0 }
	}
	pub fn done(mut self) -> Vec<u8> {
		self.e.out[6..8].copy_from_slice(&self.an.to_be_bytes());
		self.e.out[8..10].copy_from_slice(&self.ns.to_be_bytes());
		self.e.out[10..12].copy_from_slice(&self.ar.to_be_bytes());
		self.e.out
	}
}
fn gen_sig(r: &mut Rng, owner: &Nm, signer: &Nm, ct: u16) -> J {
	let mut x = gen_rr_at(r, 46, owner);
	x.set("kn", jn(signer)); x.set("ct", n(ct));
	x
}
fn pool(r: &mut Rng) -> Vec<Nm> {
	let deep = nm("g.f.e.d.c.b.a");
	let mut v: Vec<Nm> = (0..=7).map(|k| trail(&deep, k)).collect();
	if r.chance(1, 3) { for x in ["b", "xb", "b.b", "a.b", "*.a"] { v.push(nm(x)); } }
	if r.chance(1, 10) { v.push(gen_name(r)); }
	v
}
pub fn filler(r: &mut Rng) -> Vec<u8> {
	let f = nm("f");
	let mut m = Msg::new(r, &f, 1);
	m.e.rr(&obj! { "t" => n(1), "n" => jn(&f), "x" => J::b(&[1, 2, 3, 4]) }, u32::MAX);
	m.an = 1;
	m.done()
}
fn gen_msg(prof: &str, r: &mut Rng, names: &[Nm]) -> Vec<u8> {
	let qn = r.pick(names).clone();
	let qt = *r.pick(&[1, 16, 43, 48]);
	let mut m = Msg::new(r, &qn, qt);
	let k = if prof == "long" { r.range(1, 3) } else { match r.below(12) { 0 => 0, 1 => 8, _ => r.range(1, 4) } };
	let mut ans: Vec<J> = Vec::new();
	for _ in 0..k {
		let o = if r.chance(3, 4) { r.pick(names).clone() } else { cat("w", r.pick(names)) };
		let x = if r.chance(if prof == "long" { 3 } else { 1 }, 4) { let sg = r.pick(names).clone(); let ct = *r.pick(&TYPES); gen_sig(r, &o, &sg, ct) } else { let t = *r.pick(&TYPES); gen_rr_at(r, t, &o) };
		ans.push(x);
	}
	for x in &ans { let t = gen_u32(r); m.e.rr(x, t); m.an += 1; }
	if r.chance(1, 2) && prof != "long" {
		for _ in 0..r.range(1, 4) {
			let o = r.pick(names).clone();
			let x = match r.below(6) {
				0 | 1 => { let t = *r.pick(&[47u16, 50]); gen_rr_at(r, t, &o) },
				2 | 3 => { let sg = r.pick(names).clone(); let ct = *r.pick(&[47u16, 50, 47, 50, 2, 6, 1, 43, 48, 46]); gen_sig(r, &o, &sg, ct) },
				4 => gen_rr_at(r, 2, &o),
				_ => { let t = *r.pick(&TYPES); gen_rr_at(r, t, &o) },
			};
			let t = gen_u32(r);
			m.e.rr(&x, t); m.ns += 1;
		}
	}
	if r.chance(1, 3) { // additional section: not looked at
		m.ar = r.below(3) as u16;
		if r.chance(1, 2) { m.e.out.extend([0, 0, 41, 4, 208, 0, 0, 128, 0, 0, 0]); } else { let k = r.below(20); let x = r.bytes(k); m.e.out.extend(x); }
	}
	let mut b = m.done();
	let hdr = prof == "hdr";
	if r.chance(if hdr { 2 } else { 1 }, if hdr { 3 } else { 8 }) {
		match r.below(10) {
			0 => { b[0] = *r.pick(&[1, 128, 255]); }, 1 => b[1] = *r.pick(&[1, 128, 255]),
			2 => b[2] ^= 1 << r.below(8), 3 => b[3] ^= 1 << r.below(8), 4 => { b[2] = r.u64() as u8; b[3] = r.u64() as u8; },
			5 => { let k = *r.pick(&[4usize, 5, 6, 7, 8, 9]); b[k] = *r.pick(&[0, 1, 2, 3]); },
			6 => b[3] = (b[3] & 0xf0) | r.below(16) as u8,
			7 => { b[7] = b[7].wrapping_add(1) }, 8 => { b[9] = b[9].wrapping_add(1) },
			_ => { let k = r.below(b.len() + 1); b.truncate(k) },
		}
	}
	if r.chance(if prof == "parse" { 2 } else { 1 }, if prof == "parse" { 3 } else { 10 }) { for _ in 0..r.range(1, 2) { if b.len() > 13 { let mut t = b.split_off(12); damage(r, &mut t); b.extend(t); } } }
	if prof == "parse" && r.chance(1, 6) { // pointer chains and loops: the text of a TXT record, then a record using it as its name
		if let Some(q) = question_end(&b) {
			let mut c = b[..q].to_vec();
			let base = q + 12;
			let k = *r.pick(&[1usize, 2, 3, 100, 124, 125, 126, 127]);
			c.extend([0, 0, 16, 0, 1, 0, 0, 0, 5]);
			c.extend(((2 * k + 1) as u16).to_be_bytes()); c.push((2 * k) as u8);
			for i in 0..k { let to = if i == 0 { *r.pick(&[12usize, 12, 12, base, base + 1, q, 16000]) } else { base + 2 * i - 2 }; c.extend([0xc0 | (to >> 8) as u8, to as u8]); }
			let to = base + 2 * k - 2;
			c.extend([0xc0 | (to >> 8) as u8, to as u8, 0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2, 3, 4]);
			c[..12].copy_from_slice(&[0, 0, 0x81, 0xa0, 0, 1, 0, 2, 0, 0, 0, 0]);
			b = c;
		}
	}
	b.truncate(65535);
	b
}
fn question_end(b: &[u8]) -> Option<usize> {
	let mut p = 12;
	loop { let l = *b.get(p)? as usize; if l == 0 { return if p + 5 <= b.len() { Some(p + 5) } else { None }; } if l > 63 { return None; } p += l + 1; }
}
/// A message nearly as long as can be: a compressed name in a record which is too long to be written, or nearly.
fn gen_big(r: &mut Rng) -> Vec<u8> {
	let mut nm: Nm = Vec::new();
	let (mut tl, want) = (0, r.range(90, 253));
	while tl < want - 1 { let l = (want - tl - 1).min(63).min(r.range(30, 63)); nm.push(vec![*r.pick(b"kmz"); l]); tl += l + 1; }
	let mut b = vec![0, 0, 0x81, 0xa0, 0, 1, 0, 1, 0, 0, 0, 0];
	let w = wire_name(&nm);
	b.extend(wire_name(&vec![vec![b'q'; r.range(0, 3)]].into_iter().filter(|l| !l.is_empty()).collect())); b.extend([0, 1, 0, 1]);
	if r.chance(1, 3) { b[9] = 1; b.extend([0, 0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2, 3, 4]); }
	b.extend([0, 0, 46, 0, 1, 0, 0, 0, 77]);
	let full = 65533 + r.below(6) - if r.chance(1, 4) { r.range(0, 9000) } else { 0 };
	let sig = (full - 18 - w.len()).min(65535 - b.len() - 22);
	b.extend(((20 + sig) as u16).to_be_bytes());
	b.extend([0, *r.pick(&[47u8, 50])]); b.extend(r.bytes(16));
	let at = b.len() + 2 + if r.chance(1, 2) { 0 } else { r.below(9000) }; // the name is within the signature
	b.extend([0xc0 | (at >> 8) as u8, at as u8]);
	let v = r.u64() as u8;
	b.extend(vec![v; sig]);
	b[at..at + w.len()].copy_from_slice(&w);
	b
}
/// Names all over the first 16 KiB of a message, and pointers to them.
fn gen_far(r: &mut Rng) -> Vec<u8> {
	let mut b = vec![0, 0, 0x81, 0xa0, 0, 1, 0, 0, 0, 0, 0, 0, 1, b'q', 0, 0, 16, 0, 1];
	let most = *r.pick(&[300usize, 1100, 4200, 8300, 16500, 16500, 20000]);
	// One signature, in which the names are
	b.extend([0, 0, 46, 0, 1, 0, 0, 0, 77]);
	b.extend(((19 + most) as u16).to_be_bytes());
	b.extend([0, *r.pick(&[1u8, 16, 47])]); b.extend(r.bytes(16)); b.push(0);
	let start = b.len();
	let v = *r.pick(&[0u8, 0, 0, 1, 3, 255]);
	b.extend(vec![v; most]);
	let mut ptrs = vec![];
	let mut taken: Vec<(usize, usize)> = vec![];
	for i in 0..r.range(2, 12) {
		let at = match r.below(4) {
			0 => (1usize << r.range(8, 14)) - r.below(3),
			1 => (1usize << r.range(8, 13)) * r.range(1, 3) + r.below(3),
			2 => 16383 - r.below(3),
			_ => r.range(start, start + most),
		};
		let mut w = vec![];
		for _ in 0..r.range(1, 2) { let k = r.range(1, 6); w.push(k as u8); for _ in 0..k { w.push(*r.pick(b"abcXYZ019-_")); } }
		match (r.below(3), ptrs.last()) { (0, Some(p)) => { let p: usize = *p; w.extend([0xc0 | (p >> 8) as u8, p as u8]); }, _ => w.push(0) }
		let _ = i;
		if at < start || at + w.len() > start + most || at > 16383 || taken.iter().any(|t| at < t.1 && t.0 < at + w.len()) { continue; }
		b[at..at + w.len()].copy_from_slice(&w);
		taken.push((at, at + w.len())); ptrs.push(at);
	}
	let mut an = 1u8;
	for p in ptrs {
		let ptr = [0xc0 | (p >> 8) as u8, p as u8];
		match r.below(4) {
			0 => { b.extend(ptr); b.extend([0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2, 3, 4]); },
			1 => { b.extend([1, b'w']); b.extend(ptr); b.extend([0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2, 3, an]); },
			2 => { b.extend([0, 0, *r.pick(&[2u8, 5, 39]), 0, 1, 0, 0, 0, 9, 0, 2]); b.extend(ptr); },
			_ => { b.extend(ptr); b.extend([0, 46, 0, 1, 0, 0, 0, 8, 0, 24]); b.extend([0, 16]); b.extend(r.bytes(16)); b.extend(ptr); b.extend([1, 2, 3, 4]); },
		}
		an += 1;
	}
	b[7] = an;
	b
}
pub fn gen(prof: &str, r: &mut Rng) -> J {
	if prof == "far" { return obj! { "qn" => jn(&vec![vec![b'q']]), "qt" => n(16), "msgs" => J::Arr(vec![J::b(&gen_far(r))]), "fill" => n(12) }; }
	if prof == "big" { return obj! { "qn" => jn(&vec![vec![b'q']]), "qt" => n(16), "msgs" => J::Arr(vec![J::b(&gen_big(r))]), "fill" => n(12) }; }
	let names = pool(r);
	let k = match prof { "parse" => 1, "hdr" => r.range(1, 2), "long" => r.range(2, 9), _ => r.range(1, 6) };
	let msgs = (0..k).map(|_| J::b(&gen_msg(prof, r, &names))).collect();
	let qn = if r.chance(1, 10) { gen_name(r) } else { r.pick(&names).clone() };
	obj! { "qn" => jn(&qn), "qt" => n(*r.pick(&[1, 16, 28, 52, 5, 39, 2, 65535, 257])), "msgs" => J::Arr(msgs), "fill" => n(if r.chance(5, 6) { 12 } else { r.below(4) as i64 }) }
}
/// Messages TLC described: refused (in some way), or with these signers.
pub fn concrete(a: &J, r: &mut Rng) -> Vec<u8> {
	let deep = nm("f.e.d.c.b.a");
	let z = |k: i64| trail(&deep, k as usize);
	let mut m = Msg::new(r, &nm("a"), 16);
	if *a.at("ok") == J::Bool(false) {
		m.e.rr(&obj! { "t" => n(1), "n" => jn(&nm("r")), "x" => J::b(&[9, 9, 9, 9]) }, 1);
		let g = gen_sig(r, &nm("r"), &nm("refused"), 1);
		m.e.rr(&g, 1);
		m.an = 2;
		let mut b = m.done();
		match r.below(7) { 0 => b[1] = 1, 1 => b[3] |= 2, 2 => b[2] |= 2, 3 => b[3] &= 0xdf, 4 => { b.pop(); }, 5 => b[5] = 2, _ => b[7] = 3 }
		return b;
	}
	for sg in a.a("sg") {
		let o = cat("x", &z(sg.int()));
		let ct = *r.pick(&TYPES);
		let g = gen_sig(r, &o, &z(sg.int()), ct);
		let t = gen_u32(r);
		m.e.rr(&g, t); m.an += 1;
	}
	let t = gen_u32(r);
	m.e.rr(&obj! { "t" => n(1), "n" => jn(&nm("x")), "x" => J::b(&[1, 1, 1, 1]) }, t);
	m.an += 1;
	m.done()
}
pub fn run(case: &J) -> J {
	let mut r = Rng::new(case.get("seed").map(|x| x.int() as u64).unwrap_or(1));
	let mut msgs: Vec<Vec<u8>> = match case.get("abs") { Some(a) => a.arr().iter().map(|a| concrete(a, &mut r)).collect(), None => case.a("msgs").iter().map(|m| m.bytes()).collect() };
	let (mut b, q0) = ProofBuilder::new(&name(case.at("qn")), case.i("qt") as u16);
	let (aw0, mut steps) = (b.awaiting_responses(), Vec::new());
	let fill = case.i("fill");
	let mut i = 0;
	let mut filled = 0;
	loop {
		if i == msgs.len() {
			if filled >= fill || !b.awaiting_responses() { break; }
			msgs.push(filler(&mut r));
			filled += 1;
		}
		let res = b.process_response(&buf(&msgs[i]));
		let (res, q) = match res { Ok(q) => ("ok", q), Err(()) => ("err", vec![]) };
		steps.push(obj! { "res" => s(res), "q" => J::Arr(q.iter().map(|q| J::b(q)).collect()), "aw" => J::Bool(b.awaiting_responses()) });
		i += 1;
	}
	let fin = match b.finish_proof() {
		Ok((p, ttl)) => obj! { "res" => s("ok"), "b" => J::b(&p), "ttl" => pair(ttl as u64) },
		Err(()) => obj! { "res" => s("err") },
	};
	obj! { "res" => s("ok"), "q0" => J::b(&q0), "aw0" => J::Bool(aw0), "msgs" => J::Arr(msgs.iter().map(|m| J::b(m)).collect()), "steps" => J::Arr(steps), "fin" => fin }
}

/// The question for a name and type.
pub fn gen_query(_prof: &str, r: &mut Rng) -> J { obj! { "qn" => jn(&gen_name(r)), "qt" => n(if r.chance(1, 2) { *r.pick(&TYPES) } else { gen_u16(r) }) } }
pub fn run_query(case: &J) -> J {
	let (_, q) = ProofBuilder::new(&name(case.at("qn")), case.i("qt") as u16);
	// and the questions the builder asks itself
	let (mut b, _) = ProofBuilder::new(&name(&jn(&nm("a"))), 16);
	let mut r = Rng::new(7);
	let mut m = Msg::new(&mut r, &nm("a"), 16);
	m.e.compress = 0;
	m.e.upper = 5;
	let kn = nj(case.at("qn"));
	let g = gen_sig(&mut r, &nm("a"), &kn, 16);
	m.e.rr(&g, 5); m.an = 1;
	let qs = b.process_response(&buf(&m.done())).unwrap_or_default();
	obj! { "res" => s("ok"), "q" => J::b(&q), "v" => J::b(&q.clone().into_vec()), "more" => J::Arr(qs.iter().map(|q| J::b(q)).collect()) }
}
