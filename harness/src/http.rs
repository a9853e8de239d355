//! The HTTP server (the real binary, VH_HTTP) under clients which send in fragments, stop half way,
//! go away, and a resolver which is slow or fails. A case is a script of events, the zones come from
//! seeds. Recorded: the bytes of every connection, at the server's front and at the resolver's.
use crate::e2e::{question, E};
use crate::json::*;
use crate::obj;
use crate::rng::Rng;
use crate::wire::{gen_name, jn};
use crate::world::*;
use std::io::{ErrorKind, Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

extern "C" {
	fn setsockopt(fd: i32, level: i32, name: i32, v: *const i32, l: u32) -> i32;
	fn socket(domain: i32, ty: i32, protocol: i32) -> i32;
	fn connect(fd: i32, addr: *const u8, l: u32) -> i32;
	fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
	fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
/// A connection with room for only a little that has not been read yet.
fn narrow(at: &std::net::SocketAddr) -> Option<TcpStream> {
	let std::net::SocketAddr::V4(a) = at else { panic!("harness: the server is on IPv4") };
	let mut b = vec![2u8, 0];
	b.extend(a.port().to_be_bytes()); b.extend(a.ip().octets()); b.extend([0; 8]);
	unsafe {
		let fd = socket(2, 1 | 0o2000000, 0);
		if fd < 0 { return None; }
		let s = <TcpStream as std::os::fd::FromRawFd>::from_raw_fd(fd);
		let v = 4096i32;
		setsockopt(fd, 1, 8, &v, 4);
		if connect(fd, b.as_ptr(), 16) == 0 { Some(s) } else { None }
	}
}
fn abrupt(s: &TcpStream) { let v = [1i32, 0]; unsafe { setsockopt(s.as_raw_fd(), 1, 13, v.as_ptr(), 8); } }
/// Leaves it to the kernel to acknowledge late.
fn late_acks(s: &TcpStream) { let v = 0i32; unsafe { setsockopt(s.as_raw_fd(), 6, 12, &v, 4); } }
const TYPES: [(u16, &str); 4] = [(16, "TXT"), (1, "A"), (28, "AAAA"), (52, "TLSA")];
fn tname(t: u16) -> &'static str { TYPES.iter().find(|x| x.0 == t).unwrap().1 }

// ---- The resolver: one listener, which knows by the first question which world a connection is about.
struct World1 { e: E, rds: Vec<Vec<u8>>, gated: bool, fail: (usize, usize), fat: usize }
#[derive(Clone)]
struct Log { world: i64, sent: Vec<u8>, done: bool }
#[derive(Default)]
struct Shared { epoch: usize, worlds: Vec<Arc<World1>>, permits: Vec<Vec<bool>>, open: bool, logs: Vec<Log>, seed: u64 }
static SH: OnceLock<(Mutex<Shared>, Condvar)> = OnceLock::new();
fn sh() -> &'static (Mutex<Shared>, Condvar) { SH.get_or_init(|| (Mutex::new(Shared::default()), Condvar::new())) }

fn read_frame(s: &mut TcpStream) -> Option<Vec<u8>> {
	let mut l = [0; 2];
	s.read_exact(&mut l).ok()?;
	let mut b = vec![0; u16::from_be_bytes(l) as usize];
	s.read_exact(&mut b).ok()?;
	Some(b)
}
fn resolver_conn(mut s: TcpStream) {
	let _ = s.set_nodelay(true);
	let _ = s.set_read_timeout(Some(Duration::from_secs(20)));
	let mut q = match read_frame(&mut s) { Some(q) => q, None => return };
	let (m, cv) = sh();
	let mut g = m.lock().unwrap();
	let epoch = g.epoch;
	let first = std::panic::catch_unwind(|| question(&q)).unwrap_or((vec![], 0));
	let w = g.worlds.iter().position(|w| w.e.w.names[w.e.qn] == first.0 && w.e.qt == first.1);
	let li = g.logs.len();
	g.logs.push(Log { world: w.map(|x| x as i64).unwrap_or(-1), sent: vec![], done: false });
	let mut fails = false;
	if let Some(w) = w {
		while g.worlds[w].gated && !g.open && g.permits[w].is_empty() && g.epoch == epoch { g = cv.wait_timeout(g, Duration::from_secs(10)).unwrap().0; }
		if g.epoch != epoch { return; }
		if !g.permits[w].is_empty() { fails = g.permits[w].remove(0); }
	}
	let seed = g.seed.wrapping_add(li as u64 * 7919);
	let world = w.map(|w| g.worlds[w].clone());
	drop(g);
	let mut sent = vec![];
	if let Some(world) = world {
		let mut r = Rng::new(seed);
		let mut k = 0;
		loop {
			let (qn, qt) = std::panic::catch_unwind(|| question(&q)).unwrap_or((vec![], 0));
			let m = world.e.encode(&mut r, &world.rds, &qn, qt, &world.e.respond(&qn, qt));
			let mut m = m;
			if world.fat > 0 && u16::from_be_bytes([m[8], m[9]]) == 0 && u16::from_be_bytes([m[10], m[11]]) == 0 { // one more record in the answer
				let an = u16::from_be_bytes([m[6], m[7]]) + 1;
				m[6..8].copy_from_slice(&an.to_be_bytes());
				let x = vec![b'a' + (k % 26) as u8; world.fat.min(60000)];
				let d = txt_rdata(&x);
				m.extend([0, 0, 16, 0, 1, 0, 1, 0, k as u8]);
				m.extend((d.len() as u16).to_be_bytes()); m.extend(d);
			}
			let mut f = (m.len() as u16).to_be_bytes().to_vec();
			f.extend(&m);
			let mut stop = false;
			if fails && k == world.fail.0 { match world.fail.1 { 0 => { stop = true; f.clear(); }, 1 => { stop = true; f.truncate(1 + r.below(f.len() - 1)); }, 2 => { f[5] = (f[5] & 0xf0) | 2; }, _ => { f.truncate(2); f[0] = 0; f[1] = 0; } } }
			let cut = if r.chance(1, 4) { r.below(f.len() + 1) } else { f.len() };
			for p in [&f[..cut], &f[cut..]] { if !p.is_empty() { if s.write_all(p).is_err() { break; } sent.extend(p); } }
			{ let mut g = m_lock(); if g.epoch == epoch { g.logs[li].sent = sent.clone(); } }
			k += 1;
			if stop || k > 64 { break; }
			match read_frame(&mut s) { Some(x) => q = x, None => break }
		}
	}
	let _ = s.shutdown(Shutdown::Write);
	let mut b = [0; 1024];
	while let Ok(1..) = s.read(&mut b) {}
	let mut g = m_lock();
	if g.epoch == epoch { g.logs[li].done = true; cv.notify_all(); }
}
fn m_lock() -> std::sync::MutexGuard<'static, Shared> { sh().0.lock().unwrap() }
fn resolver() -> SocketAddr {
	static R: OnceLock<SocketAddr> = OnceLock::new();
	*R.get_or_init(|| {
		let l = TcpListener::bind("127.0.0.1:0").unwrap();
		let a = l.local_addr().unwrap();
		std::thread::spawn(move || for s in l.incoming() { if let Ok(s) = s { std::thread::spawn(move || resolver_conn(s)); } });
		a
	})
}

// ---- The server
struct Srv { child: Child, at: SocketAddr, fds: i64 }
static SRV: Mutex<Option<Srv>> = Mutex::new(None);
fn server(fds: i64) -> SocketAddr {
	let mut g = SRV.lock().unwrap();
	if let Some(s) = g.as_mut() {
		if s.fds == fds && s.child.try_wait().unwrap().is_none() { return s.at; }
	}
	if let Some(mut s) = g.take() { let _ = s.child.kill(); let _ = s.child.wait(); }
	let exe = std::env::var("VH_HTTP").expect("harness: VH_HTTP is not set");
	for _ in 0..20 {
		let at = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap();
		let mut c = Command::new(&exe);
		c.env("RESOLVER", resolver().to_string()).env("BIND", at.to_string()).env("TOKIO_WORKER_THREADS", "4").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
		unsafe { c.pre_exec(move || { prctl(1, 9, 0, 0, 0); if fds > 0 { setrlimit(7, &[fds as u64, fds as u64]); } Ok(()) }); }
		let mut child = c.spawn().unwrap_or_else(|e| panic!("harness: {}: {}", exe, e));
		for _ in 0..2000 {
			if child.try_wait().unwrap().is_some() { break; }
			if TcpStream::connect(at).is_ok() { *g = Some(Srv { child, at, fds }); return at; }
			std::thread::sleep(Duration::from_millis(2));
		}
		let _ = child.kill(); let _ = child.wait();
	}
	panic!("harness: the server does not start");
}
fn gone() -> bool { SRV.lock().unwrap().as_mut().map(|s| s.child.try_wait().unwrap().is_some()).unwrap_or(true) }
/// Whether the server has taken and closed all the connections that held its descriptors.
fn relieved(fds: i64) -> bool {
	let (pid, at) = match SRV.lock().unwrap().as_ref() { Some(s) => (s.child.id(), s.at), None => return false };
	// Those that wait to be accepted come before this one:
	let mut probe = match TcpStream::connect_timeout(&at, Duration::from_secs(2)) { Ok(s) => s, Err(_) => return false };
	let _ = probe.set_read_timeout(Some(Duration::from_secs(2)));
	if probe.write_all(b"probe\r\n\r\n").is_err() || !matches!(probe.read(&mut [0; 16]), Ok(x) if x > 0) { return false; }
	drop(probe);
	for _ in 0..400 {
		if std::fs::read_dir(format!("/proc/{}/fd", pid)).map(|d| (d.count() as i64) < fds * 2 / 3).unwrap_or(false) { return true; }
		std::thread::sleep(Duration::from_millis(5));
	}
	false
}
/// To be called before the process ends.
pub fn stop() { if let Some(mut s) = SRV.lock().unwrap().take() { let _ = s.child.kill(); let _ = s.child.wait(); } }

// ---- Requests
fn headers(r: &mut Rng) -> Vec<u8> {
	let mut h = b"Host: proofs.example\r\n".to_vec();
	match r.below(8) {
		0 => { h.clear(); },
		1 => h.extend("X-Name: caf\u{e9} \u{2603}\r\n".as_bytes()),
		2 => h.extend(b"X-Latin: caf\xe9\r\nX-Bin: \xff\xfe\x80\r\n"),
		3 => { h.extend(b"Cookie: "); h.extend(vec![b'c'; *r.pick(&[100usize, 2000, 4000, 4090, 5000, 9000, 70000])]); h.extend(b"\r\n"); },
		4 => { h.extend(b"Cookie: "); h.extend("\u{2603}".repeat(*r.pick(&[10usize, 1300, 1400, 3000])).as_bytes()); h.extend(b"\r\n"); },
		_ => h.extend(b"Accept: */*\r\n"),
	}
	h.extend(b"\r\n");
	if r.chance(1, 12) { h.extend(b"GET /dnssecproof?d=second.&t=A HTTP/1.1\r\n\r\n"); }
	h
}
fn request(r: &mut Rng, ws: &[E], k: usize, plain: bool) -> Vec<u8> {
	let e = &ws[k];
	let mut d = show(&e.w.names[e.qn]).into_bytes();
	if r.chance(1, 3) { for c in d.iter_mut() { if r.chance(1, 2) { c.make_ascii_uppercase(); } } }
	let mut t = tname(e.qt).as_bytes().to_vec();
	if r.chance(1, 2) { for c in t.iter_mut() { if r.chance(1, 2) { c.make_ascii_lowercase(); } } }
	let (mut verb, mut path, mut vers) = (b"GET".to_vec(), b"/dnssecproof?".to_vec(), r.pick(&[&b"HTTP/1.1"[..], &b"HTTP/1.0"[..]]).to_vec());
	let mut args: Vec<Vec<u8>> = vec![[&b"d="[..], &d].concat(), [&b"t="[..], &t].concat()];
	if r.chance(1, 4) { args.reverse(); }
	if r.chance(1, 4) { let p = r.below(args.len() + 1); args.insert(p, r.pick(&[&b"x=1"[..], b"D=a.", b"T=TXT", b"dd=b.", b"=", b"x=", b"=d", b"x==", b"td=A", b"x=d=q."]).to_vec()); }
	if !plain {
		match r.below(27) {
			0 => verb = r.pick(&[&b"POST"[..], b"get", b"GETX", b"", b"HEAD", b"GE", b"\xff"]).to_vec(),
			1 => vers = r.pick(&[&b"HTTP/1.2"[..], b"HTTP/2", b"", b"http/1.1", b"HTTP/1.10", b"HTTP/1.", b"HTTP/0.9"]).to_vec(),
			2 => path = r.pick(&[&b"/"[..], b"/dnssecproof", b"/dnssecProof?", b"/dnssecproof/?", b"dnssecproof?", b"//dnssecproof?", b"", b"/x/dnssecproof?", b"http://h/dnssecproof?", b"/dnssecproof#"]).to_vec(),
			3 => { args.remove(r.below(2)); },
			4 => args.clear(),
			5 => { let p = r.below(args.len() + 1); args.insert(p, r.pick(&[&b"x"[..], b"", b"d", b"t", b"\xc3\xa9"]).to_vec()); },
			6 => { d.pop(); args[0] = [&b"d="[..], &d].concat(); args[1] = [&b"t="[..], &t].concat(); },
			7 => { let p = r.below(d.len()); d[p] = *r.pick(&[b'"', b'%', b'.', 0x7f, 1, b'+', b'=', b'?', 0xc3]); args = vec![[&b"t="[..], &t].concat(), [&b"d="[..], &d].concat()]; },
			8 => { let x = *r.pick(&[&b"NS"[..], b"CNAME", b"", b"TXTX", b"TX", b"16", b"AAA", b"AA", b"TLS", b"any", b"DS", b"tls\xc3\xa1", b"%54XT", b"ta", b"\xef\xbc\xa1"]); args = vec![[&b"d="[..], &d].concat(), [b"t=", x].concat()]; },
			9 => { let n = gen_name(r); args = vec![[&b"d="[..], show(&n).as_bytes()].concat(), [&b"t="[..], &t].concat()]; },
			10 => { let o = &ws[r.below(ws.len())]; args.push([&b"d="[..], show(&o.w.names[o.qn]).as_bytes()].concat()); },
			11 => { args.push([&b"t="[..], r.pick(&TYPES).1.as_bytes()].concat()); },
			12 => { args.insert(0, r.pick(&[&b"d="[..], b"t=", b"d=bad", b"t=NS", b"d=a b."]).to_vec()); },
			13 => { args.push(r.pick(&[&b"d="[..], b"t=", b"d=bad", b"t=NS"]).to_vec()); },
			14 => { args[0] = [&b"d="[..], *r.pick(&[&b"."[..], b"..", b"a..b.", b".a.", b"a"])].concat(); },
			15 => { args = vec![[&b"d="[..], "a.".repeat(r.range(125, 130)).as_bytes()].concat(), [&b"t="[..], &t].concat()]; },
			16 => { args.push([&b"x="[..], &vec![b'y'; r.range(3900, 4200)]].concat()); },
			17 | 26 => { // the line's end near the end of the buffer
				let l = verb.len() + path.len() + vers.len() + 2 + args.iter().map(|a| a.len() + 1).sum::<usize>() - 1;
				let want = if r.chance(2, 3) { r.range(4092, 4097) } else { r.range(4085, 4105) };
				args.push([&b"x="[..], &vec![b'y'; want.saturating_sub(l + 3)]].concat());
			},
			_ => {},
		}
	}
	let sp = |r: &mut Rng| if !plain && r.chance(1, 30) { r.pick(&[&b"  "[..], b"\t", b"", b"\n", b"\r"]).to_vec() } else { b" ".to_vec() };
	let mut b = verb; b.extend(sp(r)); b.extend(path); b.extend(args.join(&b'&')); b.extend(sp(r)); b.extend(vers);
	if !plain && r.chance(1, 12) { let p = r.below(b.len()); match r.below(3) { 0 => b[p] = *r.pick(&[b' ', b'&', b'=', 0x80, 0xe9, 13, 10, 0, b'a']), 1 => { b.remove(p); }, _ => b.insert(p, *r.pick(&[b' ', b'&', b'=', 0xc3, 13, 10, b'?'])) } }
	if !plain && r.chance(1, 25) { b.extend(r.pick(&[&b" "[..], b" x", b"\r", b"\n"]).iter()); }
	if !plain && r.chance(1, 20) { b.extend(r.pick(&[&b"\n"[..], b"\r", b"\n\n", b"\r\r", b"\n\r"]).iter()); if r.chance(1, 2) { b.extend(vec![b'z'; *r.pick(&[100usize, 4090, 5000])]); } return b; }
	b.extend(b"\r\n");
	b.extend(headers(r));
	b
}
pub fn gen(prof: &str, r: &mut Rng) -> J {
	let nw = *r.pick(&[1usize, 1, 2, 2, 3]);
	let (mut ws, mut seeds): (Vec<E>, Vec<J>) = (vec![], vec![]);
	let wp = if prof == "max" { "max" } else { "tcp" };
	while ws.len() < nw {
		let ws1 = (r.u64() >> 34) as i64;
		let e = E::make(wp, &mut Rng::new(ws1 as u64));
		if ws.iter().any(|x| x.w.names[x.qn] == e.w.names[e.qn] && x.qt == e.qt) { continue; }
		ws.push(e); seeds.push(n(ws1));
	}
	let nc = *r.pick(&[1usize, 2, 3, 3, 4, 5]);
	let mut conns = vec![];
	let (mut ev, mut last): (Vec<J>, Vec<J>) = (vec![], vec![]);
	let mut slow = vec![];
	let mut todo: Vec<(usize, usize)> = vec![]; // what each connection still has to do
	for _ in 0..nc {
		let k = r.below(nw);
		let plain = r.chance(1, 4) || prof == "gate" || prof == "fds";
		let mut b = request(r, &ws, k, plain);
		let trickle = prof == "fat" && r.chance(1, 2); // the rest of the request comes slowly, while the answer is under way
		if trickle { if let Some(p) = b.windows(2).position(|w| w == b"\r\n") { for _ in 0..4 { b.splice(p + 2..p + 2, *b"A: b\r\n"); } } }
		let line = b.windows(2).position(|w| w == b"\r\n").map(|p| p + 2).unwrap_or(b.len());
		let m = *r.pick(&[1usize, 1, 2, 2, 3, 5, 40]);
		let mut cuts: Vec<usize> = (1..m).map(|_| match r.below(4) { 0 => r.below(b.len()), 1 => line.saturating_sub(r.below(4)).max(1), 2 => (line + r.below(3)).min(b.len() - 1), _ => r.below(line.min(b.len())) }).filter(|x| *x > 0 && *x < b.len()).collect();
		if b.len() > 4096 && r.chance(1, 3) { cuts.push(4096 - r.below(3)); cuts.push(4096 + r.below(2)); cuts.retain(|x| *x < b.len()); }
		if trickle && line + 18 < b.len() { cuts = vec![line, line + 6, line + 12, line + 18]; }
		slow.push(trickle);
		cuts.sort(); cuts.dedup();
		let pieces = cuts.len() + 1;
		conns.push(obj! { "b" => J::b(&b), "cuts" => J::Arr(cuts.iter().map(|x| n(*x as i64)).collect()), "late" => J::Bool(r.chance(1, 3)) });
		todo.push((pieces, if r.chance(1, 12) { 1 } else if r.chance(1, 12) { 2 } else if r.chance(1, 10) { 3 } else { 0 }));
	}
	// Interleave the fragments
	let gated: Vec<usize> = (0..nw).filter(|_| r.chance(1, if prof == "gate" { 1 } else { 4 })).collect();
	let mut steps: Vec<(usize, usize)> = todo.iter().enumerate().flat_map(|(c, t)| std::iter::repeat((c, 0)).take(t.0)).collect();
	if r.chance(2, 3) { r.shuffle(&mut steps); }
	let mut left: Vec<usize> = todo.iter().map(|t| t.0).collect();
	for (c, _) in steps {
		if left[c] == 0 { continue; }
		let end = todo[c].1;
		// Ends early (1: half close, 2: abort), or goes away once all is sent (3)
		if (end == 1 || end == 2) && r.chance(1, left[c] as u64 + 1) { ev.push(J::Arr(vec![s(if end == 1 { "fin" } else { "abort" }), n(c as i64)])); left[c] = 0; continue; }
		ev.push(J::Arr(vec![s("send"), n(c as i64)]));
		left[c] -= 1;
		if slow[c] { ev.push(J::Arr(vec![s("seen"), n(c as i64)])); ev.push(J::Arr(vec![s("wait"), n(3)])); }
		if left[c] == 0 && end == 3 { ev.push(J::Arr(vec![s(if r.chance(1, 2) { "abort" } else { "fin" }), n(c as i64)])); }
		if !gated.is_empty() && r.chance(1, 3) { ev.push(J::Arr(vec![s(if r.chance(1, 3) { "fail" } else { "release" }), n(gated[r.below(gated.len())] as i64)])); }
		if r.chance(1, 6) { ev.push(J::Arr(vec![s("wait"), n(r.below(4) as i64)])); }
	}
	for w in &gated { for _ in 0..r.below(3) { ev.push(J::Arr(vec![s(if r.chance(1, 3) { "fail" } else { "release" }), n(*w as i64)])); } }
	if prof == "fds" { ev.insert(r.below(ev.len() + 1), J::Arr(vec![s("hogsoff"), n(0)])); ev.insert(0, J::Arr(vec![s("hogs"), n(r.range(20, 60) as i64)])); }
	// Somebody asks afterwards
	let k = r.below(nw);
	let b = request(r, &ws, k, true);
	last.push(J::Arr(vec![s("open"), n(0)]));
	last.push(J::Arr(vec![s("settle"), n(0)]));
	last.push(J::Arr(vec![s("send"), n(nc as i64)]));
	conns.push(obj! { "b" => J::b(&b), "cuts" => J::Arr(vec![]), "late" => J::Bool(false) });
	ev.extend(last);
	let qs = ws.iter().map(|e| J::Arr(vec![jn(&e.w.names[e.qn]), n(e.qt)])).collect();
	let fails = (0..nw).map(|_| J::Arr(vec![n(*r.pick(&[0i64, 0, 1, 2])), n(r.below(4) as i64)])).collect();
	obj! { "wp" => s(wp), "ws" => J::Arr(seeds), "seed" => n((r.u64() >> 34) as i64), "conns" => J::Arr(conns), "ev" => J::Arr(ev), "gated" => J::Arr(gated.iter().map(|x| n(*x as i64)).collect()), "fails" => J::Arr(fails), "qs" => J::Arr(qs), "fat" => n(if prof == "fat" { *r.pick(&[9000i64, 20000, 30000]) } else { 0 }), "fds" => n(if prof == "fds" { 24 } else { 0 }) }
}
/// A behaviour of HttpMC.tla: events of clients 1.. whose requests are made up here.
pub fn plant(j: &J) -> J {
	let mut r = Rng::new(j.i("seed") as u64);
	let nc = j.i("n") as usize;
	let same = r.chance(1, 3);
	let (mut ws, mut seeds): (Vec<E>, Vec<J>) = (vec![], vec![]);
	while ws.len() < if same { 1 } else { nc } {
		let ws1 = (r.u64() >> 34) as i64;
		let e = E::make("root", &mut Rng::new(ws1 as u64));
		if ws.iter().any(|x| x.w.names[x.qn] == e.w.names[e.qn] && x.qt == e.qt) { continue; }
		ws.push(e); seeds.push(n(ws1));
	}
	let mut conns = vec![];
	for c in 0..nc {
		let b = request(&mut r, &ws, if same { 0 } else { c }, true);
		let line = b.windows(2).position(|w| w == b"\r\n").unwrap();
		let cut = match r.below(3) { 0 => line + 1, 1 => line, _ => 1 + r.below(line) };
		conns.push(obj! { "b" => J::b(&b), "cuts" => J::Arr(vec![n(cut as i64)]), "late" => J::Bool(r.chance(1, 2)) });
	}
	let mut ev: Vec<J> = vec![];
	for x in j.a("hist") {
		let (what, c) = (x.arr()[0].str(), x.arr()[1].int() - 1);
		ev.push(J::Arr(vec![s(what), n(if same && (what == "release" || what == "fail") { 0 } else { c })]));
		ev.push(J::Arr(vec![s("wait"), n(1)]));
	}
	conns.push(obj! { "b" => J::b(&request(&mut r, &ws, 0, true)), "cuts" => J::Arr(vec![]), "late" => J::Bool(false) });
	ev.push(J::Arr(vec![s("open"), n(0)])); ev.push(J::Arr(vec![s("settle"), n(0)])); ev.push(J::Arr(vec![s("send"), n(nc as i64)]));
	let qs = ws.iter().map(|e| J::Arr(vec![jn(&e.w.names[e.qn]), n(e.qt)])).collect();
	let fails = (0..ws.len()).map(|_| J::Arr(vec![n(r.below(2) as i64), n(r.below(4) as i64)])).collect();
	obj! { "wp" => s("root"), "gated" => J::Arr((0..ws.len()).map(|x| n(x as i64)).collect()), "ws" => J::Arr(seeds), "seed" => n((r.u64() >> 34) as i64), "conns" => J::Arr(conns), "ev" => J::Arr(ev), "fails" => J::Arr(fails), "qs" => J::Arr(qs), "fat" => n(0), "fds" => n(0) }
}

struct Cl { sock: Option<TcpStream>, next: usize, sent: Vec<u8>, got: Vec<u8>, state: &'static str, hog: bool }
static STUCK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn run(case: &J) -> J {
	if STUCK.load(std::sync::atomic::Ordering::SeqCst) >= 2 { return obj! { "res" => s("skipped"), "conns" => J::Arr(vec![]) }; }
	let at = server(case.i("fds"));
	let fails = case.a("fails");
	let mut ws = vec![];
	for (k, x) in case.a("ws").iter().enumerate() {
		let mut e = E::make(case.s("wp"), &mut Rng::new(x.int() as u64));
		let rds = e.w.all_rdata();
		let gated = case.a("gated").iter().any(|g| g.int() as usize == k);
		let _ = &mut e;
		ws.push(Arc::new(World1 { e, rds, gated, fail: (fails[k].arr()[0].int() as usize, fails[k].arr()[1].int() as usize), fat: case.i("fat") as usize }));
	}
	{
		let mut g = m_lock();
		g.epoch += 1; g.permits = vec![vec![]; ws.len()]; g.worlds = ws.clone(); g.logs = vec![]; g.open = false; g.seed = case.i("seed") as u64;
		sh().1.notify_all();
	}
	let nc = case.a("conns").len();
	let mut cl: Vec<Cl> = (0..nc).map(|_| Cl { sock: None, next: 0, sent: vec![], got: vec![], state: "open", hog: false }).collect();
	let mut hogs: Vec<TcpStream> = vec![];
	let mut short = false; // of descriptors, for all we know
	let connect = |late: bool| -> Option<TcpStream> {
		let s = if case.i("fat") > 0 { narrow(&at)? } else { TcpStream::connect_timeout(&at, Duration::from_secs(5)).ok()? };
		s.set_nodelay(true).unwrap();
		if late { late_acks(&s); }
		Some(s)
	};
	for ev in case.a("ev") {
		let (what, c) = (ev.arr()[0].str(), ev.arr()[1].int() as usize);
		match what {
			"send" | "fin" | "abort" => {
				let spec = &case.a("conns")[c];
				let x = &mut cl[c];
				if x.state != "open" { continue; }
				if x.sock.is_none() {
					x.sock = connect(*spec.at("late") == J::Bool(true));
					if x.sock.is_none() { x.state = "refused"; continue; }
				}
				x.hog |= short;
				let so = x.sock.as_mut().unwrap();
				match what {
					"send" => {
						let b = spec.at("b").bytes();
						let mut ends: Vec<usize> = spec.a("cuts").iter().map(|x| x.int() as usize).collect();
						ends.push(b.len());
						if x.next >= ends.len() { continue; }
						let from = if x.next == 0 { 0 } else { ends[x.next - 1] };
						// (A server that has answered already may not be reading any more)
						so.set_write_timeout(Some(Duration::from_secs(5))).unwrap();
						let _ = so.write_all(&b[from..ends[x.next]]);
						x.sent.extend(&b[from..ends[x.next]]);
						x.next += 1;
						if *spec.at("late") == J::Bool(true) { late_acks(so); }
						std::thread::sleep(Duration::from_micros(150));
					},
					"fin" => { let _ = so.shutdown(Shutdown::Write); x.state = "fin"; },
					_ => { abrupt(so); x.sock = None; x.state = "aborted"; },
				}
			},
			"release" | "fail" => { let mut g = m_lock(); g.permits[c].push(what == "fail"); sh().1.notify_all(); drop(g); std::thread::sleep(Duration::from_micros(150)); },
			"wait" => std::thread::sleep(Duration::from_micros(400 * c as u64)),
			"seen" => if let Some(so) = &cl[c].sock { // something has come, or nothing will for now
				so.set_read_timeout(Some(Duration::from_millis(40))).unwrap();
				let _ = so.peek(&mut [0]);
			},
			"hogs" => { short = true; for _ in 0..c { if let Some(s) = connect(false) { hogs.push(s); } } },
			"hogsoff" => if short { hogs.clear(); short = !relieved(case.i("fds")); },
			"open" => { if short { hogs.clear(); short = !relieved(case.i("fds")); } let mut g = m_lock(); g.open = true; sh().1.notify_all(); },
			_ => { // settle: whoever has sent a whole line gets an answer
				for c in 0..nc - 1 { settle(&mut cl[c]); }
			},
		}
	}
	settle(&mut cl[nc - 1]);
	let dead = gone();
	let t0 = Instant::now();
	let mut g = m_lock();
	while g.logs.iter().any(|l| !l.done) && t0.elapsed() < Duration::from_secs(3) { g = sh().1.wait_timeout(g, Duration::from_millis(50)).unwrap().0; }
	let logs = g.logs.iter().map(|l| {
		let (qn, qt) = if l.world < 0 { (J::Arr(vec![]), 0) } else { let e = &ws[l.world as usize].e; (jn(&e.w.names[e.qn]), e.qt) };
		obj! { "qn" => qn, "qt" => n(qt), "sent" => J::b(&l.sent) }
	}).collect();
	drop(g);
	if dead { STUCK.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
	if cl.iter().any(|c| c.state == "hang" || c.state == "refused") { STUCK.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
	let conns = cl.iter().map(|c| obj! { "sent" => J::b(&c.sent), "got" => J::b(&c.got), "end" => s(c.state), "hog" => J::Bool(c.hog) }).collect();
	obj! { "res" => s(if dead { "dead" } else { "ok" }), "conns" => J::Arr(conns), "logs" => J::Arr(logs) }
}
/// Reads what comes until the server closes the connection.
fn settle(x: &mut Cl) {
	if x.sock.is_none() { return; }
	let whole = x.sent.windows(2).any(|w| w == b"\r\n") || x.sent.len() >= 4096 || x.state == "fin";
	let so = x.sock.as_mut().unwrap();
	let t0 = Instant::now();
	let mut b = [0; 65536];
	so.set_read_timeout(Some(Duration::from_millis(if whole { 500 } else { 2 }))).unwrap();
	loop {
		match so.read(&mut b) {
			Ok(0) => { x.state = "closed"; break; },
			Ok(k) => x.got.extend(&b[..k]),
			Err(e) if e.kind() == ErrorKind::WouldBlock || e.kind() == ErrorKind::TimedOut => if !whole { x.state = "idle"; return; } else if t0.elapsed() > Duration::from_secs(8) { x.state = "hang"; break; },
			Err(_) => { x.state = "reset"; break; },
		}
	}
	x.sock = None;
}
