//! The lookup script of the wrapper (doh_lookup.js), run by node with the natively built wrapper
//! behind it and the harness as its DoH server. A case is some lookups and what is done about their
//! requests, in order; the log says what the script did: requests, results. Next to each lookup the
//! library's builder is given the same responses.
use crate::builder::{buf, concrete, gen as gen_msgs};
use crate::e2e::{question, E};
use crate::json::*;
use crate::obj;
use crate::rng::Rng;
use crate::wasm::{chars, lib_start, opt, string, verdict};
use crate::wire::*;
use crate::world::*;
use dnssec_prover::query::*;
use dnssec_prover_wasm as wp;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

const END: &[&str] = &["https://dns.example/dns-query", "https://[2001:db8::1]:8443/q", "http://127.0.0.1/", "https://x.test/a/b%20c"];
const ERRS: &[&str] = &["Failed to fetch", "Failed to parse URL from \"x\"", "a \\ b", "two\nlines", "tab\there", "\"", "{\"x\":1}", "\u{1}\u{7f}", "naïve ☃ 𝄞", ""];

fn types(r: &mut Rng, qt: u16) -> String {
	let t = match qt { 1 => "a", 16 => "txt", 28 => "aaaa", _ => "tlsa" };
	match r.below(3) { 0 => t.to_string(), 1 => t.to_uppercase(), _ => t.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect() }
}
fn number(t: &str) -> u16 { match &t.to_lowercase()[..] { "a" => 1, "aaaa" => 28, "txt" => 16, "tlsa" => 52, _ => 0 } }
fn reply(r: &mut Rng, how: &str) -> J {
	let mut o = obj! { "op" => s("reply"), "k" => n(r.below(8) as i64), "how" => s(how) };
	match how {
		"status" => { o.set("status", n(*r.pick(&[204, 301, 304, 400, 403, 404, 429, 500, 502, 503, 599, 201, 299]))); },
		"error" | "cut" => { o.set("msg", chars(*r.pick(ERRS))); o.set("bare", J::Bool(r.chance(1, 4))); },
		"mod" => { o.set("mod", n(r.range(1, 9) as i64)); },
		_ => {},
	}
	o
}
pub fn gen(prof: &str, r: &mut Rng) -> J {
	let k = match prof { "many" => r.range(2, 4), "name" => 1, _ => if r.chance(1, 4) { 2 } else { 1 } };
	let (mut ls, mut worlds) = (vec![], vec![]);
	for _ in 0..k {
		let (mut t, ty, mut w) = if prof == "name" || r.chance(1, 12) {
			let mut c = string(gen_namestr("", r).at("c"));
			// Characters that come out as either of the last two of base64's alphabet
			if r.chance(1, 4) { c = (0..r.range(1, 4)).map(|_| (0..r.range(1, 40)).map(|_| *r.pick(&['?', '>', '~', '}', 'o', '?', '_', '-'])).chain(['.']).collect::<String>()).collect(); }
			if r.chance(1, 3) { c.pop(); }
			let ty = match r.below(3) { 0 => { let q = *r.pick(&[1u16, 16, 28, 52]); types(r, q) }, 1 => r.pick(&["mx", "ANY", "", "16", " a", "a ", "TXTx", "TLſA", "0", "ns"]).to_string(), _ => "txt".to_string() };
			(c, ty, -1)
		} else {
			let mut e = loop { let e = E::make(*r.pick(&["", "", "max", "wild", "root"]), r); if [1, 16, 28, 52].contains(&e.qt) { break e; } };
			let mut t = show(&e.w.names[e.qn]);
			if r.chance(1, 2) { t.pop(); }
			if t.chars().any(|c| !c.is_ascii()) { t = "x.".to_string(); }
			let ty = types(r, e.qt);
			worlds.push(e.to_json());
			(t.chars().map(|c| if r.chance(1, 8) { c.to_ascii_uppercase() } else { c }).collect(), ty, worlds.len() as i64 - 1)
		};
		if t.chars().any(|c| c as u32 > 0x10_0000) { t = "y".to_string(); w = -1; }
		ls.push(obj! { "name" => chars(&t), "ty" => chars(&ty), "n" => n(number(&ty)), "w" => n(w) });
	}
	let mut evs = vec![];
	let mut todo: Vec<i64> = (1..=k as i64).collect();
	let bad = match prof { "fail" => 5, "many" => 25, _ => 60 };
	let g = gen_msgs("", r);
	for _ in 0..r.range(3, 30) {
		if !todo.is_empty() && r.chance(1, 3) { let i = r.below(todo.len()); evs.push(obj! { "op" => s("start"), "l" => n(todo.remove(i)) }); continue; }
		let how = if r.chance(1, bad) { *r.pick(&["status", "error", "cut", "mod", "msg", "mod", "msg"]) } else { "ok" };
		let mut o = reply(r, how);
		if how == "msg" { let m = r.pick(g.a("msgs")).clone(); o.set("b", m); }
		evs.push(o);
	}
	for l in todo { evs.push(obj! { "op" => s("start"), "l" => n(l) }); }
	obj! { "lookups" => J::Arr(ls), "worlds" => J::Arr(worlds), "evs" => J::Arr(evs), "endpoint" => chars(*r.pick(END)), "seed" => n((r.u64() >> 40) as i64) }
}

struct Node { _p: Child, w: ChildStdin, r: BufReader<ChildStdout> }
impl Node {
	fn new() -> Node {
		let d = std::env::var("VH_DOH").unwrap_or_else(|_| panic!("harness: VH_DOH is not set"));
		extern "C" { fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32; }
		let mut c = Command::new("node");
		unsafe { use std::os::unix::process::CommandExt; c.pre_exec(|| { prctl(1, 9, 0, 0, 0); Ok(()) }); } // ends with this process
		let mut p = c.arg(format!("{}/runner.mjs", d)).arg(format!("{}/doh_lookup.js", d))
			.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::inherit()).spawn().unwrap_or_else(|e| panic!("harness: node: {}", e));
		let (w, r) = (p.stdin.take().unwrap(), BufReader::new(p.stdout.take().unwrap()));
		Node { _p: p, w, r }
	}
	fn send(&mut self, j: &J) { writeln!(self.w, "{}", j).unwrap_or_else(|e| panic!("harness: node: {}", e)); }
	fn recv(&mut self) -> J {
		let mut l = String::new();
		self.r.read_line(&mut l).unwrap_or_else(|e| panic!("harness: node: {}", e));
		crate::json::parse(&l).unwrap_or_else(|e| panic!("harness: node said {:?}: {}", l, e))
	}
}
thread_local! { static NODE: RefCell<Option<Node>> = RefCell::new(None); }

#[derive(Default)]
struct Lib { b: Option<ProofBuilder>, started: bool, done: bool }
struct Run<'a> {
	case: &'a J, r: Rng, worlds: Vec<(E, Vec<Vec<u8>>)>, log: Vec<J>,
	wrapped: Vec<Option<wp::WASMProofBuilder>>, libs: Vec<Lib>,
	open: Vec<(i64, i64, Vec<u8>)>, // lookup, number, question
	fins: Vec<J>, last: Vec<u8>,
}
impl<'a> Run<'a> {
	/// Serves the script until it has nothing more to do.
	fn idle(&mut self, nd: &mut Node) {
		loop {
			let m = nd.recv();
			match m.at("ev").str() {
				"idle" => return,
				"call" => { let a = m.a("a"); let v = self.call(a[0].str(), &a[1..]); nd.send(&v); },
				"fetch" => {
					let url = string(m.at("url"));
					let q = url.rfind("dns=").map(|i| unbase(&url[i + 4..])).unwrap_or_default();
					self.open.push((m.i("l"), m.i("f"), q.clone()));
					self.log.push(obj! { "ev" => s("fetch"), "l" => m.at("l").clone(), "f" => m.at("f").clone(), "url" => m.at("url").clone(), "accept" => m.at("accept").clone(), "method" => m.at("method").clone() });
					nd.send(&n(0));
				},
				_ => {
					let l = m.i("l");
					let p = self.libs[l as usize - 1].b.take().and_then(|b| b.finish_proof().ok()).map(|x| x.0);
					self.libs[l as usize - 1].done = true;
					let mut f = opt(p.clone());
					if let Some(p) = &p { f.set("lib", verdict(p).at("lib").clone()); }
					self.fins[l as usize - 1] = f;
					self.log.push(obj! { "ev" => s("result"), "l" => n(l), "how" => m.at("how").clone(), "c" => m.at("text").clone() });
					nd.send(&n(0));
				},
			}
		}
	}
	fn call(&mut self, f: &str, a: &[J]) -> J {
		let arr = |x: Option<Vec<u8>>| match x { Some(b) => J::b(&b), None => J::Null };
		match f {
			"init" => match wp::init_proof_builder(string(&a[0]), a[1].int() as u16) {
				Some(b) => { self.wrapped.push(Some(b)); n(self.wrapped.len() as i64) },
				None => n(0),
			},
			"process" => { if let Some(b) = &mut self.wrapped[a[0].int() as usize - 1] { wp::process_query_response(b, a[1].bytes()); } n(0) },
			"next" => arr(self.wrapped[a[0].int() as usize - 1].as_mut().and_then(wp::get_next_query)),
			"proof" => arr(self.wrapped[a[0].int() as usize - 1].take().and_then(wp::get_unverified_proof)),
			_ => chars(&wp::verify_byte_stream(a[0].bytes())),
		}
	}
	fn start(&mut self, nd: &mut Node, l: i64) {
		let c = &self.case.a("lookups")[l as usize - 1];
		let (t, ty) = (string(c.at("name")), c.i("n") as u16);
		let x = &mut self.libs[l as usize - 1];
		if x.started { return; }
		x.started = true;
		let mut e = obj! { "ev" => s("start"), "l" => n(l) };
		let both: Vec<Option<(ProofBuilder, QueryBuf)>> = [t.clone(), format!("{}.", t)].iter().map(|t| lib_start(t, ty)).collect();
		e.set("lib", J::Arr(both.iter().map(|x| opt(x.as_ref().map(|x| x.1.to_vec()))).collect()));
		let mut both = both.into_iter();
		let (a, b) = (both.next().unwrap(), both.next().unwrap());
		x.b = if ty == 0 { None } else { if t.ends_with('.') { a } else { b } }.map(|x| x.0);
		self.log.push(e);
		nd.send(&obj! { "op" => s("start"), "l" => n(l), "name" => c.at("name").clone(), "ty" => c.at("ty").clone(), "endpoint" => self.case.at("endpoint").clone() });
		self.idle(nd);
	}
	fn reply(&mut self, nd: &mut Node, o: &J) {
		if self.open.is_empty() { return; }
		let i = match o.get("l") {
			Some(l) => match self.open.iter().position(|x| x.0 == l.int()) { Some(i) => i, None => return },
			None => o.i("k") as usize % self.open.len(),
		};
		let (l, f, q) = self.open.remove(i);
		let how = o.s("how");
		let mut body = match how {
			"msg" => o.at("b").bytes(),
			"p" => concrete(o.at("a"), &mut self.r),
			"x" => vec![0; 65536],
			_ => {
				let w = self.case.a("lookups").get(l as usize - 1).map(|c| c.i("w")).unwrap_or(-1);
				if w < 0 || q.len() < 17 { let m = crate::builder::Msg::new(&mut self.r, &nm("a"), 16); m.done() } else {
					let (e, rds) = &self.worlds[w as usize];
					let (qn, qt) = question(&q);
					e.encode(&mut self.r, rds, &qn, qt, &e.respond(&qn, qt))
				}
			},
		};
		if how == "mod" {
			match o.i("mod") {
				1 => body.resize(65535, 0), 2 => body.resize(65536, 0), 3 => body.resize(65536 + self.r.range(1, 70000), 0), 4 => body.clear(),
				5 => { let k = self.r.below(body.len()); body.truncate(k); }, 6 => body[self.r.below(2)] = 7, 7 => body[3] = (body[3] & 0xf0) | 3,
				8 => { let mut t = body.split_off(12); damage(&mut self.r, &mut t); body.extend(t); },
				_ => body = self.last.clone(),
			}
		}
		let status = if how == "status" { o.i("status") } else { 200 };
		if status == 204 { body.clear(); }
		let good = how != "error" && how != "cut" && (200..300).contains(&status);
		let mut e = obj! { "ev" => s("reply"), "l" => n(l), "f" => n(f), "good" => J::Bool(good), "len" => pair(body.len() as u64) };
		let (mut res, mut qs) = ("none", vec![]);
		let lib = self.libs.get_mut(l as usize - 1);
		if let (true, true, Some(Some(b))) = (good, body.len() <= 65535, lib.map(|x| x.b.as_mut())) {
			match b.process_response(&buf(&body)) {
				Ok(q) => { res = "ok"; qs = q.iter().map(|q| J::b(q)).collect(); },
				Err(()) => { res = "err"; },
			}
		}
		e.set("lr", s(res)); e.set("q", J::Arr(qs));
		self.log.push(e);
		let mut m = obj! { "op" => s("reply"), "f" => n(f), "how" => s(match how { "error" | "cut" => how, _ => "ok" }), "status" => n(status), "body" => J::b(&body) };
		m.set("msg", o.get("msg").cloned().unwrap_or(J::Arr(vec![]))); m.set("bare", o.get("bare").cloned().unwrap_or(J::Bool(false)));
		nd.send(&m);
		if good { self.last = body; }
		self.idle(nd);
	}
}
fn unbase(t: &str) -> Vec<u8> {
	let (mut o, mut acc, mut bits) = (vec![], 0u32, 0);
	for c in t.bytes() {
		let v = match c { b'A'..=b'Z' => c - b'A', b'a'..=b'z' => c - b'a' + 26, b'0'..=b'9' => c - b'0' + 52, b'-' | b'+' => 62, b'_' | b'/' => 63, _ => continue };
		acc = (acc << 6 | v as u32) & 0xffff; bits += 6;
		if bits >= 8 { bits -= 8; o.push((acc >> bits) as u8); }
	}
	o
}
pub fn run(case: &J) -> J {
	NODE.with(|c| {
		let mut c = c.borrow_mut();
		// A node which was stopped in the middle of a case is of no use for the next one.
		let mut nd = match c.take() { Some(x) => x, None => {
			let mut x = Node::new();
			let m = x.recv();
			if m.at("ev").str() != "idle" { return obj! { "res" => s("no script"), "msg" => m.at("msg").clone() }; }
			x
		} };
		let k = case.a("lookups").len();
		let mut x = Run { case, r: Rng::new(case.i("seed") as u64), worlds: case.a("worlds").iter().map(|w| { let e = E::from_json(w); let d = e.w.all_rdata(); (e, d) }).collect(),
			log: vec![], wrapped: vec![], libs: (0..k).map(|_| Lib::default()).collect(), open: vec![], fins: vec![J::Null; k], last: vec![] };
		nd.send(&obj! { "op" => s("clear") });
		x.idle(&mut nd);
		for e in case.a("evs") {
			if e.s("op") == "start" { x.start(&mut nd, e.i("l")); } else { x.reply(&mut nd, e); }
		}
		// Whatever is still asked gets an honest answer.
		let ok = obj! { "how" => s("ok"), "k" => n(0) };
		for _ in 0..100 {
			if x.open.is_empty() { break; }
			x.reply(&mut nd, &ok);
		}
		let over = |x: &Run| x.libs.iter().all(|l| !l.started || l.done);
		for ms in [5, 50, 300, 1000, 3000] {
			if over(&x) { break; }
			nd.send(&obj! { "op" => s("wait"), "ms" => n(ms) });
			x.idle(&mut nd);
		}
		let clean = over(&x) && x.open.is_empty();
		let out = obj! { "res" => s("ok"), "log" => J::Arr(x.log), "fins" => J::Arr(x.fins.into_iter().map(|f| if f == J::Null { opt(None) } else { f }).collect()) };
		if clean { *c = Some(nd); }
		out
	})
}
