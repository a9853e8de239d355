//! vh: the conformance harness. It makes cases (`gen`) or takes cases made by TLC (`run`), runs the
//! real crate on each in a watched child process and writes one JSON line per case: the case and
//! what the code did ("out"). It never judges: the TLA+ specifications do.
//!   vh gen KIND SEED COUNT OUT     vh run KIND CASES OUT     vh keys OUT
#[macro_use] mod json;
mod rng; mod keys; mod world; mod ops; mod genval; mod wire; mod signed; mod builder; mod resolve; mod buffer; mod anchors; mod e2e;
#[cfg(feature = "full")]
mod tcp;
#[cfg(feature = "full")]
mod http;
#[cfg(feature = "wasm")]
mod wasm;
#[cfg(feature = "wasm")]
mod doh;

use json::*;
use rng::Rng;
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio, exit};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

extern "C" {
	fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
	fn getrusage(who: i32, u: *mut [i64; 18]) -> i32;
}
fn cpu_ms() -> u64 {
	let mut u = [0i64; 18];
	unsafe { getrusage(0, &mut u) };
	((u[0] + u[2]) * 1000 + (u[1] + u[3]) / 1000) as u64
}

fn case_seed(seed: u64, i: usize) -> u64 {
	let mut r = Rng::new(seed.wrapping_mul(0x1_0000_0001).wrapping_add(i as u64 * 0x9e37));
	r.u64()
}

/// Source of cases, identically available to parent and children.
enum Src { Gen(String, u64), File(String, Vec<String>) }
impl Src {
	fn case(&self, i: usize) -> J {
		match self {
			Src::Gen(k, seed) => ops::gen(k, &mut Rng::new(case_seed(*seed, i))),
			Src::File(_, l) => parse(&l[i]).unwrap_or_else(|e| panic!("harness: bad case line {}: {}", i + 1, e)),
		}
	}
	fn kind(&self) -> &str { match self { Src::Gen(k, _) => k, Src::File(k, _) => k } }
}
fn lines(p: &str) -> Vec<String> {
	std::fs::read_to_string(p).unwrap_or_else(|e| { eprintln!("harness: {}: {}", p, e); exit(2) })
		.lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect()
}

static CUR: AtomicUsize = AtomicUsize::new(usize::MAX);

fn child(src: Src, start: usize, end: usize) {
	// A bound on memory, so that runaway allocation is an outcome and not an accident.
	// (node maps far more than it uses)
	unsafe { if !src.kind().starts_with("doh") { setrlimit(9, &[6 << 30, 6 << 30]); } setrlimit(4, &[0, 0]); }
	std::panic::set_hook(Box::new(|p| if CUR.load(Ordering::SeqCst) == usize::MAX { eprintln!("harness: {}", p) }));
	let wait = if src.kind().starts_with("doh") { 30 } else { 120 };
	std::thread::spawn(move || {
		let (mut last, mut t0, mut c0) = (usize::MAX, Instant::now(), cpu_ms());
		loop {
			std::thread::sleep(Duration::from_millis(200));
			let c = CUR.load(Ordering::SeqCst);
			if c != last || c == usize::MAX { last = c; t0 = Instant::now(); c0 = cpu_ms(); continue; }
			let wall = t0.elapsed().as_secs();
			if (wall >= 8 && cpu_ms() - c0 >= 6_000) || wall >= wait { exit(77); }
		}
	});
	let out = std::io::stdout();
	for i in start..end {
		let mut case = src.case(i);
		if src.kind() == "e2e" && case.get("par").is_some() { case = e2e::plant(&case); }
		#[cfg(feature = "full")]
		if src.kind() == "http" && case.get("hist").is_some() { case = http::plant(&case); }
		CUR.store(i, Ordering::SeqCst);
		let r = ops::run(src.kind(), &case);
		CUR.store(usize::MAX, Ordering::SeqCst);
		case.set("out", r);
		let mut o = out.lock();
		writeln!(o, "{}", case).unwrap();
	}
	let _ = out.lock().flush();
	#[cfg(feature = "full")]
	http::stop();
}

fn parent(src: Src, n_cases: usize, args: &[String], outp: &str) {
	let shards = std::env::var("VH_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize).min(n_cases.max(1));
	let exe = std::env::current_exe().unwrap();
	let res: Vec<Vec<String>> = std::thread::scope(|sc| {
		let mut hs = Vec::new();
		for sh in 0..shards {
			let (src, exe) = (&src, &exe);
			hs.push(sc.spawn(move || {
				let (mut pos, end) = (n_cases * sh / shards, n_cases * (sh + 1) / shards);
				let (mut got, mut bad) = (Vec::new(), 0);
				while pos < end && bad < 3 {
					let mut c = Command::new(exe).arg("child").args(args).arg(pos.to_string()).arg(end.to_string())
						.stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
					let err = c.stderr.take().unwrap();
					let eh = std::thread::spawn(move || BufReader::new(err).lines().map_while(|l| l.ok()).take(50).collect::<Vec<_>>());
					for l in BufReader::new(c.stdout.take().unwrap()).lines() {
						match l { Ok(l) if l.ends_with('}') => { got.push(l); pos += 1; }, _ => break }
					}
					let st = c.wait().unwrap();
					let e = eh.join().unwrap_or_default().join(" | ");
					if st.success() { break; }
					if e.contains("harness:") || st.code() == Some(2) || st.code() == Some(101) {
						eprintln!("harness: child failed at case {}: {} {}", pos, st, e);
						exit(2);
					}
					// The code under test did not return: record that as the outcome of this case.
					let mut case = src.case(pos);
					let what = if st.code() == Some(77) { "hang" } else { "crash" };
					case.set("out", obj! { "res" => s(what), "msg" => s(&format!("{} {}", st, e)) });
					got.push(case.to_string());
					pos += 1; bad += 1;
				}
				got
			}));
		}
		hs.into_iter().map(|h| h.join().unwrap()).collect()
	});
	let mut f = std::io::BufWriter::new(std::fs::File::create(outp).unwrap_or_else(|e| { eprintln!("harness: {}: {}", outp, e); exit(2) }));
	let mut total = 0;
	for r in res { for l in r { writeln!(f, "{}", l).unwrap(); total += 1; } }
	f.flush().unwrap();
	println!("{}", total);
}

fn main() {
	let a: Vec<String> = std::env::args().skip(1).collect();
	let num = |i: usize| -> usize { a.get(i).and_then(|x| x.parse().ok()).unwrap_or_else(|| { eprintln!("harness: bad arguments"); exit(2) }) };
	match a.get(0).map(|x| &x[..]) {
		Some("gen") => parent(Src::Gen(a[1].clone(), num(2) as u64), num(3), &a[..3], &a[4]),
		Some("run") => { let l = lines(&a[2]); let n = l.len(); parent(Src::File(a[1].clone(), l), n, &a[..3], &a[3]) },
		Some("child") => {
			let src = if a[1] == "gen" { Src::Gen(a[2].clone(), num(3) as u64) } else { Src::File(a[2].clone(), lines(&a[3])) };
			child(src, num(4), num(5));
		},
		Some("tables") => { // vh tables OUT: what the specification cannot compute about the keys
			let mut v = Vec::new();
			for k in keys::table().iter() { for fl in [0u16, 1, 256, 257] { for pr in [2u8, 3, 4] {
				let alg = if k.alg == 0 { 5 } else { k.alg };
				v.push(J::Arr([k.kid, fl as i64, pr as i64, alg as i64, keys::key_tag(fl, pr, alg, &k.public) as i64].iter().map(|x| J::Int(*x)).collect()));
			} } }
			let mut h = Vec::new();
			for x in ["a", "*.a", "x.a", "m.a", "z.m.a", "w.a", "z.a", "e.a", "w.x.a"] {
				let nx = world::nm(x);
				let hh = world::nsec3_hash(&nx, 1, &[0xab]);
				h.push(obj! { "n" => J::Arr(nx.iter().map(|l| J::b(l)).collect()), "it" => n(1), "salt" => J::b(&[0xab]), "h" => J::b(&hh), "l" => J::b(&world::b32(&hh)) });
			}
			std::fs::write(&a[1], obj! { "tags" => J::Arr(v), "hashes" => J::Arr(h) }.to_string()).unwrap();
		},
		Some("one") => { // vh one KIND SEED INDEX: print one generated case and its outcome, unwatched
			let mut c = Src::Gen(a[1].clone(), num(2) as u64).case(num(3));
			let r = ops::run(&a[1], &c);
			c.set("out", r);
			println!("{}", c);
			#[cfg(feature = "full")]
			http::stop();
		},
		_ => { eprintln!("harness: unknown command"); exit(2) },
	}
}
