//! The clients over TCP, against a resolver which cuts, delays, garbles and breaks off its stream.
//! The case only holds the script; the zones come from a seed. Recorded: every byte in each direction.
use crate::e2e::{question, E};
use crate::json::*;
use crate::obj;
use crate::rng::Rng;
use crate::wire::jn;
use crate::world::*;
use dnssec_prover::query::*;
use dnssec_prover::rr::Name;
use std::io::{ErrorKind, Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::time::{Duration, Instant};

const TYPES: [u16; 4] = [16, 1, 28, 52];
extern "C" { fn setsockopt(fd: i32, level: i32, name: i32, v: *const i32, l: u32) -> i32; }
/// Closing sends a reset.
fn abrupt(s: &TcpStream) { let v = [1i32, 0]; unsafe { setsockopt(s.as_raw_fd(), 1, 13, v.as_ptr(), 8); } }

/// What a client made of it.
pub fn client(fi: usize, to: SocketAddr, q: &Name) -> Result<(Vec<u8>, u32), std::io::Error> {
	match fi {
		0 => build_txt_proof(to, q), 1 => build_a_proof(to, q), 2 => build_aaaa_proof(to, q), 3 => build_tlsa_proof(to, q),
		_ => tokio_crate::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async {
			match fi { 4 => build_txt_proof_async(to, q).await, 5 => build_a_proof_async(to, q).await, 6 => build_aaaa_proof_async(to, q).await, _ => build_tlsa_proof_async(to, q).await }
		}),
	}
}

pub fn gen(prof: &str, r: &mut Rng) -> J {
	let wp = match r.below(8) { 0 => "max", 1 => "over", _ => "tcp" };
	let mut c = obj! { "wp" => s(wp), "ws" => n((r.u64() >> 34) as i64), "seed" => n((r.u64() >> 34) as i64), "async" => n(r.below(2) as i64), "style" => n(r.below(3) as i64) };
	let (a, b, d) = (r.below(16), r.below(16), *r.pick(&[0usize, 1, 15, 16, 16, 31]));
	let cuts = (0..11).map(|_| n(match prof { "all" => 16, _ => match d { 31 => r.below(16), x if x == 16 => a & b, x => x } } as i64)).collect();
	c.set("cuts", J::Arr(cuts));
	if prof == "fault" || r.chance(1, 6) {
		c.set("fault", J::Arr(vec![n(*r.pick(&[0i64, 0, 1, 2, 3, 5])), n(r.below(6) as i64), n(r.below(2) as i64)]));
	}
	if prof == "garble" || r.chance(1, 8) {
		c.set("garble", J::Arr(vec![n(*r.pick(&[0i64, 0, 1, 2, 3, 4, 9])), n(r.below(9) as i64), n(*r.pick(&[1i64, 2, 5, 8, 15, 128]))]));
	}
	if prof == "" && r.chance(1, 40) { c.set("refuse", J::Bool(true)); }
	if prof == "pad" { c.set("pad", J::Arr(vec![n(r.below(5) as i64), n(*r.pick(&[511i64, 512, 513, 2045, 2046, 2047, 2048, 2049, 2050, 4096, 8192, 16384])) ])); }
	if prof == "big" { c.set("pad", J::Arr(vec![n(r.below(3) as i64), n(*r.pick(&[32767i64, 32768, 65534, 65535])) ])); }
	c
}

struct Server<'a> { e: &'a E, case: &'a J, sock: TcpStream, sent: Vec<u8>, held: Vec<u8>, got: Vec<u8>, eof: bool }
impl Server<'_> {
	fn flush(&mut self) -> bool {
		let h = std::mem::take(&mut self.held);
		if h.is_empty() { return true; }
		std::thread::sleep(Duration::from_micros(250));
		match self.sock.write_all(&h) { Ok(()) => { self.sent.extend(h); true }, Err(_) => false }
	}
	/// Reads what comes within the time; false if nothing came.
	fn take(&mut self, ms: u64) -> bool {
		if self.eof { return false; }
		self.sock.set_read_timeout(Some(Duration::from_millis(ms))).unwrap();
		let mut b = [0; 4096];
		match self.sock.read(&mut b) {
			Ok(0) => { self.eof = true; false },
			Ok(k) => { self.got.extend(&b[..k]); true },
			Err(e) if e.kind() == ErrorKind::WouldBlock || e.kind() == ErrorKind::TimedOut => false,
			Err(_) => { self.eof = true; false },
		}
	}
	/// The client did not do its part in time.
	fn serve(&mut self) -> bool {
		let mut r = Rng::new(self.case.i("seed") as u64);
		let rds = self.e.w.all_rdata();
		let ints = |k: &str| -> Vec<usize> { self.case.get(k).map(|x| x.arr().iter().map(|x| x.int() as usize).collect()).unwrap_or_default() };
		let (cuts, fault, garble, pad) = (ints("cuts"), ints("fault"), ints("garble"), ints("pad"));
		if self.case.get("pieces").is_some() { // a behaviour of TcpMC.tla: responses sent ahead of their questions
			while !self.eof && self.got.len() < 14 { self.take(2000); }
			let mut ends = vec![];
			let mut all = vec![];
			for (qn, qt) in [(self.e.w.names[self.e.qn].clone(), self.e.qt), (vec![], T_DNSKEY)] {
				let m = self.e.encode(&mut r, &rds, &qn, qt, &self.e.respond(&qn, qt));
				let at = all.len();
				ends.extend([1, 2, 3, 3 + m.len() / 2, 2 + m.len()].map(|x| x + at));
				all.extend((m.len() as u16).to_be_bytes()); all.extend(&m);
			}
			let (mut from, mut k) = (0, 0);
			for x in ints("pieces") {
				k += x;
				self.held = all[from..ends[k - 1]].to_vec();
				from = ends[k - 1];
				self.flush();
			}
			if k < 10 { let _ = self.sock.shutdown(Shutdown::Write); }
			let t0 = Instant::now();
			while !self.eof { self.take(200); if t0.elapsed() > Duration::from_secs(8) { return true; } }
			return false;
		}
		let (mut seen, mut pending, mut k) = (0, Vec::new(), 0);
		loop {
			// Questions that have come, some time being left for more.
			let t0 = Instant::now();
			loop {
				while self.got.len() >= seen + 2 && self.got.len() >= seen + 2 + u16::from_be_bytes([self.got[seen], self.got[seen + 1]]) as usize {
					let l = u16::from_be_bytes([self.got[seen], self.got[seen + 1]]) as usize;
					pending.push(self.got[seen + 2..seen + 2 + l].to_vec());
					seen += 2 + l;
				}
				if self.eof { break; }
				if !pending.is_empty() { if !self.take(if r.chance(1, 3) { 1 } else { 3 }) { break; } } else {
					if !self.held.is_empty() { self.flush(); }
					if t0.elapsed() > Duration::from_secs(8) { return true; }
					self.take(200);
				}
			}
			if self.eof { return false; }
			let i = match self.case.i("style") { 0 => 0, 1 => pending.len() - 1, _ => r.below(pending.len()) };
			let (qn, qt) = match std::panic::catch_unwind(|| question(&pending[i])) { Ok(q) => q, Err(_) => (vec![], 0) };
			pending.remove(i);
			let mut m = self.e.encode(&mut r, &rds, &qn, qt, &self.e.respond(&qn, qt));
			if pad.get(0) == Some(&k) { m[11] = 1; let l = m.len().max(pad[1]); m.resize(l, 0x5a); }
			if garble.get(0) == Some(&k) {
				let x = garble[2];
				match garble[1] {
					0 => m[3] = (m[3] & 0xf0) | (x & 15) as u8, 1 => m[2] ^= 2, 2 => m[1] = x as u8, 3 => { let l = m.len(); m.truncate(l - x.min(l)); },
					4 => m.clear(), 5 => m[7] = m[7].wrapping_add(1), 6 => m.truncate(x), 7 => m[2] &= 0x7f, _ => m[5] = x as u8,
				}
			}
			let mut f = (m.len() as u16).to_be_bytes().to_vec();
			f.extend(&m);
			let stop = if fault.get(0) == Some(&k) { Some(match fault[1] { 0 => 0, 1 => 1, 2 => 2, 3 => f.len() - 1, 4 => (2 + m.len() / 2).min(f.len()), _ => f.len() }) } else { None };
			let c = cuts[k.min(cuts.len() - 1)];
			let mid = if m.len() > 2 { 2 + r.range(1, m.len() - 1) } else { f.len() };
			for (p, b) in f.iter().enumerate() {
				if stop == Some(p) { break; }
				self.held.push(*b);
				if (c & 1 != 0 && p == 0) || (c & 2 != 0 && p == 1) || (c & 4 != 0 && p + 1 == mid) || (c & 8 != 0 && p + 1 == f.len()) || (c == 16 && (p < 20 || p % 61 == 0)) { self.flush(); }
			}
			if stop.is_some() {
				self.flush();
				if fault[2] == 1 { abrupt(&self.sock); return false; }
				let _ = self.sock.shutdown(Shutdown::Write);
				break;
			}
			k += 1;
			if self.held.len() > 100_000 || k > 64 { self.flush(); }
			if k > 64 { return true; }
		}
		// All that the client still has to say
		let t0 = Instant::now();
		while !self.eof { self.take(200); if t0.elapsed() > Duration::from_secs(8) { return true; } }
		false
	}
}

static STUCK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn run(case: &J) -> J {
	// A client that hangs is waited for a few times only.
	if STUCK.load(std::sync::atomic::Ordering::SeqCst) >= 2 { return obj! { "res" => s("skipped") }; }
	let o = run_one(case);
	if o.s("res") == "hang" || *o.at("stall") == J::Bool(true) { STUCK.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
	o
}
fn run_one(case: &J) -> J {
	let e = E::make(case.s("wp"), &mut Rng::new(case.i("ws") as u64));
	let q: Name = show(&e.w.names[e.qn]).try_into().unwrap();
	let fi = TYPES.iter().position(|t| *t == e.qt).unwrap() + 4 * case.i("async") as usize;
	let l = TcpListener::bind("127.0.0.1:0").unwrap();
	let to = l.local_addr().unwrap();
	let mut o = obj! { "qn" => jn(&e.w.names[e.qn]), "fi" => n(fi as i64), "sent" => J::Arr(vec![]), "got" => J::Arr(vec![]), "stall" => J::Bool(false), "whole" => J::Bool(true) };
	let (tx, rx) = std::sync::mpsc::channel();
	let refuse = case.get("refuse").is_some();
	let l = if refuse { drop(l); None } else { Some(l) };
	std::thread::spawn(move || { let r = std::panic::catch_unwind(|| client(fi, to, &q)); let _ = tx.send(r); });
	if let Some(l) = l {
		l.set_nonblocking(true).unwrap();
		let t0 = Instant::now();
		let sock = loop {
			match l.accept() { Ok((s, _)) => break Some(s), Err(_) if t0.elapsed() > Duration::from_secs(5) => break None, Err(_) => std::thread::sleep(Duration::from_micros(200)) }
		};
		if let Some(sock) = sock {
			sock.set_nonblocking(false).unwrap();
			sock.set_nodelay(true).unwrap();
			let mut sv = Server { e: &e, case, sock, sent: vec![], held: vec![], got: vec![], eof: false };
			let stall = sv.serve();
			o.set("stall", J::Bool(stall));
			o.set("sent", J::b(&sv.sent)); o.set("got", J::b(&sv.got));
			let rst = case.get("fault").map(|f| f.arr()[2].int() == 1).unwrap_or(false);
			o.set("whole", J::Bool(!rst));
		}
	}
	let r = rx.recv_timeout(Duration::from_secs(10));
	match r {
		Err(_) => o.set("res", s("hang")),
		Ok(Err(_)) => o.set("res", s("panic")),
		Ok(Ok(Err(_))) => o.set("res", s("err")),
		Ok(Ok(Ok((p, ttl)))) => { o.set("res", s("ok")); o.set("b", J::b(&p)); o.set("ttl", pair(ttl as u64)); },
	}
	o
}
