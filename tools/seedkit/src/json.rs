//! A minimal JSON value: strict parser and deterministic printer (no external crates are used so
//! that the harness builds from the crates /repo itself locks).

use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), Int(i64), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }

impl J {
	pub fn get(&self, k: &str) -> Option<&J> {
		if let J::Obj(v) = self { v.iter().find(|(n, _)| n == k).map(|(_, v)| v) } else { None }
	}
	pub fn at(&self, k: &str) -> &J { self.get(k).unwrap_or_else(|| panic!("harness: missing key {} in {}", k, self)) }
	pub fn int(&self) -> i64 { if let J::Int(i) = self { *i } else { panic!("harness: not an int: {}", self) } }
	pub fn str(&self) -> &str { if let J::Str(s) = self { s } else { panic!("harness: not a string: {}", self) } }
	pub fn arr(&self) -> &[J] { if let J::Arr(a) = self { a } else { panic!("harness: not an array: {}", self) } }
	pub fn i(&self, k: &str) -> i64 { self.at(k).int() }
	pub fn a(&self, k: &str) -> &[J] { self.at(k).arr() }
	pub fn s(&self, k: &str) -> &str { self.at(k).str() }
	pub fn bytes(&self) -> Vec<u8> { self.arr().iter().map(|j| j.int() as u8).collect() }
	pub fn b(b: &[u8]) -> J { J::Arr(b.iter().map(|x| J::Int(*x as i64)).collect()) }
	pub fn set(&mut self, k: &str, val: J) {
		if let J::Obj(v) = self {
			if let Some(e) = v.iter_mut().find(|(n, _)| n == k) { e.1 = val; } else { v.push((k.to_string(), val)); }
		} else { panic!("harness: set on non-object") }
	}
	fn w(&self, o: &mut String) {
		match self {
			J::Null => o.push_str("null"),
			J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
			J::Int(i) => { let _ = write!(o, "{}", i); },
			J::Str(s) => {
				o.push('"');
				for c in s.chars() {
					match c {
						'"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
						c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
							let mut b = [0u16; 2];
							for u in c.encode_utf16(&mut b) { let _ = write!(o, "\\u{:04x}", u); }
						},
						c => o.push(c),
					}
				}
				o.push('"');
			},
			J::Arr(a) => {
				o.push('[');
				for (i, x) in a.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); }
				o.push(']');
			},
			J::Obj(v) => {
				o.push('{');
				for (i, (k, x)) in v.iter().enumerate() {
					if i > 0 { o.push(','); }
					J::Str(k.clone()).w(o); o.push(':'); x.w(o);
				}
				o.push('}');
			},
		}
	}
}
impl std::fmt::Display for J {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { let mut s = String::new(); self.w(&mut s); f.write_str(&s) }
}

#[macro_export]
macro_rules! obj { ($($k:expr => $v:expr),* $(,)?) => { $crate::json::J::Obj(vec![$(($k.to_string(), $v)),*]) } }
pub fn n(i: impl TryInto<i64>) -> J { J::Int(i.try_into().ok().expect("harness: int range")) }
pub fn s(x: &str) -> J { J::Str(x.to_string()) }
/// A u32/u64 as the pair <<high, low>> with a 16-bit low half, as TLC integers are 32-bit signed.
pub fn pair(x: u64) -> J { J::Arr(vec![J::Int((x >> 16) as i64), J::Int((x & 0xffff) as i64)]) }
pub fn unpair(j: &J) -> u64 { let a = j.arr(); ((a[0].int() as u64) << 16) | a[1].int() as u64 }

/// Strict RFC 8259 parser. Numbers must be integers.
pub fn parse(t: &str) -> Result<J, String> {
	let c: Vec<char> = t.chars().collect();
	let mut p = P { c, i: 0 };
	p.ws();
	let v = p.val()?;
	p.ws();
	if p.i != p.c.len() { return Err(format!("trailing data at {}", p.i)); }
	Ok(v)
}
struct P { c: Vec<char>, i: usize }
impl P {
	fn pk(&self) -> Option<char> { self.c.get(self.i).copied() }
	fn ws(&mut self) { while matches!(self.pk(), Some(' ' | '\t' | '\n' | '\r')) { self.i += 1; } }
	fn ex(&mut self, ch: char) -> Result<(), String> {
		if self.pk() == Some(ch) { self.i += 1; Ok(()) } else { Err(format!("expected {:?} at {}, got {:?}", ch, self.i, self.pk())) }
	}
	fn lit(&mut self, l: &str, v: J) -> Result<J, String> { for ch in l.chars() { self.ex(ch)?; } Ok(v) }
	fn val(&mut self) -> Result<J, String> {
		match self.pk() {
			Some('{') => {
				self.i += 1; let mut v = Vec::new(); self.ws();
				if self.pk() == Some('}') { self.i += 1; return Ok(J::Obj(v)); }
				loop {
					self.ws(); let k = self.st()?; self.ws(); self.ex(':')?; self.ws();
					let x = self.val()?; v.push((k, x)); self.ws();
					match self.pk() { Some(',') => self.i += 1, _ => { self.ex('}')?; return Ok(J::Obj(v)); } }
				}
			},
			Some('[') => {
				self.i += 1; let mut v = Vec::new(); self.ws();
				if self.pk() == Some(']') { self.i += 1; return Ok(J::Arr(v)); }
				loop {
					self.ws(); v.push(self.val()?); self.ws();
					match self.pk() { Some(',') => self.i += 1, _ => { self.ex(']')?; return Ok(J::Arr(v)); } }
				}
			},
			Some('"') => Ok(J::Str(self.st()?)),
			Some('t') => self.lit("true", J::Bool(true)),
			Some('f') => self.lit("false", J::Bool(false)),
			Some('n') => self.lit("null", J::Null),
			Some(ch) if ch == '-' || ch.is_ascii_digit() => {
				let st = self.i;
				if ch == '-' { self.i += 1; }
				let d0 = self.i;
				while matches!(self.pk(), Some(x) if x.is_ascii_digit()) { self.i += 1; }
				if self.i == d0 || (self.c[d0] == '0' && self.i - d0 > 1) { return Err(format!("bad number at {}", st)); }
				self.c[st..self.i].iter().collect::<String>().parse().map(J::Int).map_err(|e| e.to_string())
			},
			o => Err(format!("unexpected {:?} at {}", o, self.i)),
		}
	}
	fn h4(&mut self) -> Result<u32, String> {
		let mut r = 0;
		for _ in 0..4 {
			let d = self.pk().and_then(|c| c.to_digit(16)).ok_or(format!("bad \\u at {}", self.i))?;
			r = r * 16 + d; self.i += 1;
		}
		Ok(r)
	}
	fn st(&mut self) -> Result<String, String> {
		self.ex('"')?;
		let mut o = String::new();
		loop {
			let ch = self.pk().ok_or("unterminated string")?;
			self.i += 1;
			match ch {
				'"' => return Ok(o),
				'\\' => {
					let e = self.pk().ok_or("unterminated escape")?;
					self.i += 1;
					match e {
						'"' => o.push('"'), '\\' => o.push('\\'), '/' => o.push('/'), 'b' => o.push('\u{8}'),
						'f' => o.push('\u{c}'), 'n' => o.push('\n'), 'r' => o.push('\r'), 't' => o.push('\t'),
						'u' => {
							let mut u = self.h4()?;
							if (0xd800..0xdc00).contains(&u) {
								self.ex('\\')?; self.ex('u')?;
								let l = self.h4()?;
								if !(0xdc00..0xe000).contains(&l) { return Err("bad surrogate".into()); }
								u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
							}
							o.push(char::from_u32(u).ok_or("bad surrogate")?);
						},
						_ => return Err(format!("bad escape at {}", self.i)),
					}
				},
				c if (c as u32) < 0x20 => return Err(format!("raw control character at {}", self.i)),
				c => o.push(c),
			}
		}
	}
}
