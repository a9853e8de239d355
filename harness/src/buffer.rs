//! Query buffers: sequences of operations on two of them, read in every way after each.
use crate::json::*;
use crate::obj;
use crate::rng::Rng;
use dnssec_prover::query::QueryBuf;

fn runs(b: &[u8]) -> J {
	let mut v: Vec<(i64, u8)> = Vec::new();
	for x in b { match v.last_mut() { Some(l) if l.1 == *x => l.0 += 1, _ => v.push((1, *x)) } }
	J::Arr(v.into_iter().map(|(c, x)| J::Arr(vec![J::Int(c), n(x)])).collect())
}
fn size(r: &mut Rng, big: bool) -> usize {
	match r.below(if big { 14 } else { 10 }) {
		0 => 0, 1 => 1, 2 => 2047, 3 => 2048, 4 => 2049, 5 => r.range(2040, 2056), 6 => r.range(0, 2050), 7 => r.range(1, 12), 8 => 31 + r.below(3), 9 => r.range(1000, 1100),
		10 => 65535, 11 => 65534 - r.below(3), 12 => 63487 + r.below(3), _ => r.range(0, 65535),
	}
}
/// What the operation does, for the generator.
fn apply(c: &mut [Vec<u8>; 2], o: &J) {
	let a = o.i("a") as usize - 1;
	match o.s("op") {
		"new" => c[a] = vec![0; o.i("n") as usize],
		"ext" => for x in o.a("r") { let x = x.arr(); let l = c[a].len() + x[0].int() as usize; c[a].resize(l, x[1].int() as u8); },
		"put" => { let p = o.i("p") as usize; for y in &mut c[a][p..p + o.i("n") as usize] { *y = o.i("b") as u8; } },
		_ => c[1 - a] = c[a].clone(),
	}
}
pub fn gen(prof: &str, r: &mut Rng) -> J {
	let big = prof == "big";
	let mut len = [0usize; 2];
	let mut ops = Vec::new();
	for _ in 0..r.range(2, 12) {
		let a = r.below(2);
		let who = J::Int(a as i64 + 1);
		match r.below(12) {
			0 | 1 => { let k = size(r, big); len[a] = k; ops.push(obj! { "op" => s("new"), "a" => who, "n" => n(k as i64) }); },
			2..=6 => {
				// sometimes exactly up to a boundary
				let mut k = if r.chance(1, 3) && len[a] < 2050 { (2047 + r.below(3)).saturating_sub(len[a]) } else if big && r.chance(1, 3) && len[a] < 65535 { 65534 + r.below(2) - len[a] } else { size(r, big) };
				if !big && len[a] + k > 65535 { k = 0; }
				let mut v = Vec::new();
				let mut left = k;
				let mut last = 256;
				while left > 0 {
					let c = if v.len() > 3 || r.chance(1, 2) { left } else { r.range(1, left) };
					let mut b = r.below(4);
					if b == last { b += 1; }
					last = b;
					v.push(J::Arr(vec![n(c as i64), n(b as i64)]));
					left -= c;
				}
				len[a] += k;
				ops.push(obj! { "op" => s("ext"), "a" => who, "r" => J::Arr(v) });
				if len[a] > 65535 { len[a] = 0; ops.push(obj! { "op" => s("new"), "a" => J::Int(a as i64 + 1), "n" => n(0) }); }
			},
			7..=9 => {
				if len[a] == 0 { continue; }
				let k = if r.chance(1, 2) { 1 } else { r.range(1, len[a]) };
				let p = match r.below(4) { 0 => 0, 1 => len[a] - k, 2 => 2047.min(len[a] - k), _ => r.range(0, len[a] - k) };
				ops.push(obj! { "op" => s("put"), "a" => who, "p" => n(p as i64), "n" => n(k as i64), "b" => n(r.below(6) as i64) });
			},
			_ => { len[1 - a] = len[a]; ops.push(obj! { "op" => s("copy"), "a" => who }); },
		}
	}
	// The same contents again, come by in another way
	if r.chance(1, 2) {
		let mut c: [Vec<u8>; 2] = [vec![], vec![]];
		for o in &ops { apply(&mut c, o); }
		let a = r.below(2);
		let (from, to) = (c[a].clone(), J::Int(2 - a as i64));
		if r.chance(1, 2) {
			ops.push(obj! { "op" => s("new"), "a" => to.clone(), "n" => n(from.len() as i64) });
			let mut p = 0;
			for x in from.chunk_by(|x, y| x == y) {
				if x[0] != 0 { ops.push(obj! { "op" => s("put"), "a" => to.clone(), "p" => n(p as i64), "n" => n(x.len() as i64), "b" => n(x[0]) }); }
				p += x.len();
			}
		} else {
			ops.push(obj! { "op" => s("new"), "a" => to.clone(), "n" => n(0) });
			let mut rest = &from[..];
			let parts = r.range(1, 4);
			for i in 0..parts {
				let k = if i + 1 == parts { rest.len() } else { size(r, false).min(rest.len()) };
				if k == 0 { continue; }
				ops.push(obj! { "op" => s("ext"), "a" => to.clone(), "r" => runs(&rest[..k]) });
				rest = &rest[k..];
			}
		}
		if r.chance(1, 3) && !from.is_empty() {
			let p = match r.below(3) { 0 => from.len() - 1, 1 => 2048.min(from.len() - 1), _ => r.below(from.len()) };
			for b in [from[p] as i64 + 1, from[p] as i64] { ops.push(obj! { "op" => s("put"), "a" => to.clone(), "p" => n(p as i64), "n" => n(1), "b" => n(b) }); }
		}
	}
	if ops.is_empty() { ops.push(obj! { "op" => s("new"), "a" => n(1), "n" => n(2048) }); }
	obj! { "ops" => J::Arr(ops) }
}
pub fn run(case: &J) -> J {
	let mut b = [QueryBuf::new_zeroed(0), QueryBuf::new_zeroed(0)];
	let mut steps = Vec::new();
	for o in case.a("ops") {
		let a = o.i("a") as usize - 1;
		match o.s("op") {
			"new" => b[a] = QueryBuf::new_zeroed(o.i("n") as u16),
			"ext" => {
				let mut v = Vec::new();
				for x in o.a("r") { let x = x.arr(); v.resize(v.len() + x[0].int() as usize, x[1].int() as u8); }
				b[a].extend_from_slice(&v);
			},
			"put" => {
				let (p, k, x) = (o.i("p") as usize, o.i("n") as usize, o.i("b") as u8);
				if p + k <= b[a].len() { if k == 1 { b[a][p] = x; } else { for y in &mut b[a][p..p + k] { *y = x; } } }
			},
			"copy" => { let c = b[a].clone(); b[1 - a] = c; },
			k => panic!("harness: op {}", k),
		}
		let me = b[0] == b[0].clone() && b[1] == b[1].clone();
		steps.push(obj! { "r" => J::Arr(vec![runs(&b[0]), runs(&b[1])]), "v" => J::Arr(b.iter().map(|x| runs(&x.clone().into_vec())).collect()),
			"eq" => J::Bool(b[0] == b[1]), "qe" => J::Bool(b[1] == b[0]), "self" => J::Bool(me) });
	}
	obj! { "res" => s("ok"), "steps" => J::Arr(steps) }
}
