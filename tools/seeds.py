"""Planted bugs: what to change, and a demonstration. Written from the properties and the code."""
V, Q, S, RRS, B32 = 'src/validation.rs', 'src/query.rs', 'src/ser.rs', 'src/rr.rs', 'src/base32.rs'
SEEDS = []
def seed(id, property, edits, needs, breaks, main, more='', files=None, run=None, deps=None):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, main=main, more=more, files=files, run=run, deps=deps))

# ---- C01
seed('c01-collide', 'C01', [(V, 'match verify_rrsig(sig, validated_dnskeys.iter().map(|k| *k), records.clone()) {', 'match verify_rrsig(sig, records.iter().map(|k| *k), records.clone()) {')],
     'a DNSKEY, added by an attacker, whose key tag equals that of the key the DS vouches for, and which comes first in the proof',
     'The DNSKEY RRset may be signed by any of its own keys with the right tag rather than the one the DS vouches for.',
     '''
	for forged in [false, true] {
		let (mut b, root) = B::new();
		let mut b2 = B { w: World::default() };
		let z = "com.";
		// 28 and 29 have the same key tag
		let evil = if forged { Some(b.key(z, 29, 256)) } else { None };
		let k = b.key(z, 28, 256);
		b.ds(z, k, 2);
		b.sig(z, T_DS, ".", root);
		b.sig(z, T_DNSKEY, z, evil.unwrap_or(k));
		b.txt("x.com.", b"hi");
		b.sig("x.com.", T_TXT, z, evil.unwrap_or(k));
		b2.n(".");
		check(if forged { "forged rejected" } else { "honest accepted" }, b.ok() != forged);
	}
''')
seed('c01-digest-prefix', 'C01', [(V, 'if hash.as_ref() == &ds.digest {', 'if hash.as_ref().iter().zip(ds.digest.iter()).all(|(a, b)| a == b) {')],
     'a DS record, properly signed, whose digest is shorter than SHA-256 (empty, say), and a key with its tag',
     'A DS with a truncated digest vouches for keys it does not identify.',
     '''
	let (mut b, root) = B::new();
	let k = b.key("com.", 2, 257);
	b.ds("com.", k, 2);
	b.sig("com.", T_DS, ".", root);
	b.sig("com.", T_DNSKEY, "com.", k);
	b.txt("com.", b"hi");
	b.sig("com.", T_TXT, "com.", k);
	check("honest accepted", b.ok());
	// The same with an empty digest, signed by the root key.
	let rrs = b.rrs();
	let mut out = Vec::new();
	for r in rrs.iter() {
		match r {
			RR::DS(d) => { let mut d = d.clone(); d.digest = Vec::new(); write_rr(&RR::DS(d), 1, &mut out); },
			RR::RRSig(s) if s.ty == 43 => {
				let mut m = s.ty.to_be_bytes().to_vec();
				m.push(s.alg); m.push(s.labels);
				m.extend(s.orig_ttl.to_be_bytes()); m.extend(s.expiration.to_be_bytes()); m.extend(s.inception.to_be_bytes()); m.extend(s.key_tag.to_be_bytes());
				m.push(0);
				m.extend(b"\\x03com\\x00"); m.extend([0, 43, 0, 1]); m.extend(s.orig_ttl.to_be_bytes());
				let d = rrs.iter().find_map(|r| if let RR::DS(d) = r { Some(d) } else { None }).unwrap();
				m.extend([0, 4]); m.extend(d.key_tag.to_be_bytes()); m.push(d.alg); m.push(d.digest_type);
				let mut s = s.clone();
				s.signature = keys::sign(1, &m);
				write_rr(&RR::RRSig(s), 1, &mut out);
			},
			r => write_rr(r, 1, &mut out),
		}
	}
	let rrs = parse_rr_stream(&out).unwrap();
	check("empty digest vouches for nothing", verify_rr_stream(&rrs).is_err());
''')
seed('c01-mixed-owner', 'C01', [(V, "for record in signed_records {\n\t\t\t\t\t\tif !res.contains(&record) { res.push(record); }", "for record in inp.iter().filter(|rr| rr.name() == &rrsig.name && (rr.ty() == rrsig.ty || rr.ty() == NS::TYPE)) {\n\t\t\t\t\t\tif !res.contains(&record) { res.push(record); }")],
     'an unsigned NS record at the owner of any signed record',
     'Unsigned NS records at a signed name are returned as verified.',
     '''
	let (mut b, root) = B::new();
	let k = b.zone(".", root, "com.", 2);
	b.txt("x.com.", b"hi");
	b.sig("x.com.", T_TXT, "com.", k);
	check("honest accepted", b.verify().unwrap().0.len() == 1);
	let (o, t) = (b.n("x.com."), b.n("ns.evil."));
	b.w.add(o, Rd::N(T_NS, t));
	check("nothing unsigned is returned", b.verify().map(|v| v.0.len() == 1).unwrap_or(true));
''')
# ---- C02
seed('c02-p384', 'C02', [(V, 'let alg = if sig.alg == 13 {', 'let alg = if sig.alg >= 13 {')],
     'a zone signed with ECDSA P-384 (algorithm 14)', 'Proofs with P-384 keys are never accepted.',
     '''
	for kid in [2, 31, 41] {
		let (mut b, root) = B::new();
		let k = b.zone(".", root, "com.", kid);
		b.txt("com.", b"hi");
		b.sig("com.", T_TXT, "com.", k);
		check(&format!("algorithm {}", keys::key(kid).alg), b.ok());
	}
''')
seed('c02-exponent', 'C02', [(V, 'exponent_length = ((pubkey[1] as usize) << 8) | (pubkey[2] as usize);\n\t\tpos += 3;', 'exponent_length = ((pubkey[1] as usize) << 8) | (pubkey[2] as usize);\n\t\tpos += 2;')],
     'an RSA key in the RFC 3110 form with a three-byte exponent length', 'Honest proofs with such keys are refused.',
     '''
	for kid in [51, 52] {
		let (mut b, root) = B::new();
		let k = b.zone(".", root, "com.", kid);
		b.txt("com.", b"hi");
		b.sig("com.", T_TXT, "com.", k);
		check(&format!("key {}", kid), b.ok());
	}
''')
seed('c02-ds-many', 'C02', [(V, 'let mut pending_ds_sets = Vec::with_capacity(1);', 'let mut pending_ds_sets: Vec<(&str, _)> = Vec::with_capacity(1);'),
     (V, "if let Some((next_zone, ds_set)) = pending_ds_sets.pop() {\n\t\t\tnext_ds_set = Some(ds_set);", "if let Some((next_zone, ds_set)) = pending_ds_sets.pop() {\n\t\t\tpending_ds_sets.retain(|(z, _)| is_in_zone(z, \".\") && z.len() <= next_zone.len() + 64);\n\t\t\tnext_ds_set = Some(ds_set);")],
     'a proof with two branches, one of whose zone names is more than 64 bytes longer than the other',
     'One branch of an honest proof is dropped and its records are not returned.',
     '''
	let long = format!("{}.{}.", "a".repeat(40), "b".repeat(40));
	let (mut b, root) = B::new();
	let tld = b.zone(".", root, &format!("{}.", "b".repeat(40)), 4);
	let k1 = b.zone(&format!("{}.", "b".repeat(40)), tld, &long, 2);
	let k2 = b.zone(".", root, "c.", 3);
	b.txt(&long, b"one"); b.sig(&long, T_TXT, &long, k1);
	b.txt("c.", b"two"); b.sig("c.", T_TXT, "c.", k2);
	let _ = (k1, k2);
	// every order of the two delegations
	let n = b.w.rrs.len();
	for rot in 0..n {
		b.w.rrs.rotate_left(1);
		check(&format!("both branches, rotation {}", rot), b.verify().unwrap().0.len() == 2);
	}
	// a child of a very different length beside it
	let (mut b, root) = B::new();
	let l = format!("{}.{}.", "a".repeat(60), "d".repeat(20));
	let t = b.zone(".", root, &format!("{}.", "d".repeat(20)), 4);
	let k = b.zone(&format!("{}.", "d".repeat(20)), t, &l, 2);
	let s = b.zone(&format!("{}.", "d".repeat(20)), t, &format!("x.{}.", "d".repeat(20)), 5);
	let long3 = format!("{}.{}.{}.", "q".repeat(50), "r".repeat(50), "d".repeat(20));
	let k3 = b.zone(&format!("{}.", "d".repeat(20)), t, &long3, 6);
	b.txt(&l, b"1"); b.sig(&l, T_TXT, &l, k);
	b.txt(&long3, b"2"); b.sig(&long3, T_TXT, &long3, k3);
	let xs = format!("x.{}.", "d".repeat(20));
	b.txt(&xs, b"3"); b.sig(&xs, T_TXT, &xs, s);
	let n = b.w.rrs.len();
	for rot in 0..n {
		b.w.rrs.rotate_left(1);
		check(&format!("three branches, rotation {}", rot), b.verify().unwrap().0.len() == 3);
	}
	for _ in 0..1 {
		b.w.rrs.reverse();
		check("three branches, reversed", b.verify().unwrap().0.len() == 3);
	}
''')
# ---- C03
seed('c03-dup', 'C03', [(V, 'if !res.contains(&record) { res.push(record); }', 'if res.last() != Some(&record) { res.push(record); }')],
     'two redundant signatures over an RRset of two or more records, or a repeated record with another one in between',
     'Records are returned twice.',
     '''
	let (mut b, root) = B::new();
	let k2 = b.key("com.", 3, 256);
	let k = b.zone(".", root, "com.", 2);
	b.txt("com.", b"one"); b.txt("com.", b"two");
	b.sig("com.", T_TXT, "com.", k);
	check("one signature", b.verify().unwrap().0.len() == 2);
	b.sig("com.", T_TXT, "com.", k2);
	check("two signatures", b.verify().unwrap().0.len() == 2);
''')
seed('c03-order', 'C03', [(V, "for ds in dses.clone() {\n\t\thad_ds = true;", "for ds in dses.clone().take(4) {\n\t\thad_ds = true;")],
     'a DS RRset of five or more records, only the last of which have a digest type that is known',
     'Whether a proof is accepted depends on the order of its DS records.',
     '''
	for last in [false, true] {
		let (mut b, root) = B::new();
		let k = b.key("com.", 2, 257);
		if !last { b.ds("com.", k, 2); }
		for kid in 3..7 { // digests nobody knows
			let o = b.n("com.");
			b.w.add(o, Rd::Ds { tag: kid, alg: 15, dt: 5, okey: NONE, on: o });
		}
		if last { b.ds("com.", k, 2); }
		b.sig("com.", T_DS, ".", root);
		b.sig("com.", T_DNSKEY, "com.", k);
		b.txt("com.", b"hi"); b.sig("com.", T_TXT, "com.", k);
		check(if last { "SHA-256 last" } else { "SHA-256 first" }, b.ok());
	}
''')
# ---- C04
seed('c04-empty', 'C04', [(V, 'if latest_inception >= earliest_expiry {', 'if latest_inception > earliest_expiry {')],
     'signatures whose windows meet in a single second', 'A proof with an empty validity window is accepted.',
     '''
	for (inc, exp, good) in [(INC, INC + 1, true), (INC, INC, false)] {
		let (mut b, root) = B::new();
		let k = b.zone(".", root, "com.", 2);
		b.txt("com.", b"hi"); b.sig_with("com.", T_TXT, "com.", k, |s| { s.inc = inc; s.exp = exp; });
		check("window", b.ok() == good);
	}
''')
seed('c04-ds-ttl', 'C04', [(V, "\t\t\tmin_ttl = cmp::min(min_ttl, rrsig.orig_ttl);\n\t\t\tmatch rrsig.ty {", "\t\t\tif rrsig.ty != DS::TYPE || zone == \".\" { min_ttl = cmp::min(min_ttl, rrsig.orig_ttl); }\n\t\t\tmatch rrsig.ty {")],
     'a DS RRset below the top level whose signature has the lowest original TTL',
     'The cache lifetime ignores the TTL of such DS records.',
     '''
	for depth in [1, 2] {
		let (mut b, root) = B::new();
		let k1 = b.key("com.", 2, 257);
		b.ds("com.", k1, 2);
		b.sig_with("com.", T_DS, ".", root, |s| if depth == 1 { s.ottl = 7 });
		b.sig("com.", T_DNSKEY, "com.", k1);
		let k2 = b.key("ex.com.", 3, 257);
		b.ds("ex.com.", k2, 2);
		b.sig_with("ex.com.", T_DS, "com.", k1, |s| if depth == 2 { s.ottl = 7 });
		b.sig("ex.com.", T_DNSKEY, "ex.com.", k2);
		b.txt("ex.com.", b"hi"); b.sig("ex.com.", T_TXT, "ex.com.", k2);
		check(&format!("DS at depth {}", depth), b.verify().unwrap().3 == 7);
	}
''')
seed('c04-time', 'C04', [(V, 'if time < 60*60*24*365*27 {', 'if time <= 60*60*24*365*27 {')],
     'a signature time of exactly the cutoff second in December 1996', 'That second is taken to lie 136 years later.',
     '''
	let c: u32 = 60*60*24*365*27;
	for (inc, want) in [(c - 1, c as u64 - 1 + (1 << 32)), (c, c as u64), (c + 1, c as u64 + 1)] {
		let (mut b, _) = (B { w: World::default() }, 0);
		let root = b.key(".", 1, 257);
		b.sig_with(".", T_DNSKEY, ".", root, |s| { s.inc = c.min(inc); s.exp = c - 1; });
		b.txt(".", b"hi"); b.sig_with(".", T_TXT, ".", root, |s| { s.inc = inc; s.exp = c - 1; });
		// the window is [.., c - 1 + 2^32]
		let v = b.verify();
		if inc == c - 1 { check("inception at the cutoff - 1 is late", v.is_err()); continue; }
		check("inception", v.map(|v| v.1 == want.max(c as u64) && v.2 == c as u64 - 1 + (1 << 32)).unwrap_or(false));
	}
''')
# ---- C05
seed('c05-closer', 'C05', [(V, 'let proof_name = rrsig.name.trailing_n_labels(rrsig.labels + 1)', 'let proof_name = rrsig.name.trailing_n_labels(rrsig.name.labels())')],
     'a wildcard that expanded to two labels or more, and denial of the whole name but not of the next closer one',
     'Denial is asked for the full name instead of the next closer name.',
     '''
	for (from, to, good) in [("a.com.", "c.com.", true), ("a.b.com.", "z.b.com.", false)] {
		let (mut b, root) = B::new();
		let k = b.zone(".", root, "com.", 2);
		b.txt("x.b.com.", b"hi"); b.wild("x.b.com.", T_TXT, "com.", "com.", k);
		b.nsec(from, to, "com.", k);
		check(&format!("denial from {} to {}", from, to), b.ok() == good);
	}
''')
seed('c05-iterations', 'C05', [(V, 'if nsec3.hash_iterations > 2500 {', 'if nsec3.hash_iterations >= 2500 {')],
     'an NSEC3 record with exactly 2500 iterations', 'Well-formed denial is refused.',
     '''
	for (it, good) in [(2499, true), (2500, true), (2501, false)] {
		let (mut b, root) = B::new();
		let k = b.zone(".", root, "com.", 2);
		b.txt("x.com.", b"hi"); b.wild("x.com.", T_TXT, "com.", "com.", k);
		b.nsec3("x.com.", "com.", k, 0, it, b"ab");
		check(&format!("{} iterations", it), b.ok() == good);
	}
''')
seed('c05-cname', 'C05', [(V, 'if rrsig.labels != rrsig.name.labels() && rrsig.ty != NSec::TYPE {', 'if rrsig.labels < rrsig.name.labels() && rrsig.ty != NSec::TYPE && rrsig.ty != DName::TYPE {')],
     'a DNAME record synthesised from a wildcard', 'Such records are accepted without any denial.',
     '''
	for ty in [T_CNAME, T_DNAME] {
		let (mut b, root) = B::new();
		let k = b.zone(".", root, "com.", 2);
		let (o, t) = (b.n("x.com."), b.n("evil.com."));
		b.w.add(o, Rd::N(ty, t)); b.wild("x.com.", ty, "com.", "com.", k);
		check(&format!("type {} without denial", ty), !b.ok());
	}
''')
seed('c05-params', 'C05', [(V, 'if nsec3params_to_name_hash.len() >= 2 {', 'if nsec3params_to_name_hash.len() >= 1 {')],
     'a zone in the middle of an NSEC3 salt change, with two parameter sets', 'Denial under the second set is not seen.',
     '''
	let (mut b, root) = B::new();
	let k = b.zone(".", root, "com.", 2);
	b.txt("x.com.", b"hi"); b.wild("x.com.", T_TXT, "com.", "com.", k);
	b.nsec3("other.com.", "com.", k, 0, 1, b"old");
	b.nsec3("x.com.", "com.", k, 0, 1, b"new");
	for _ in 0..b.w.rrs.len() { b.w.rrs.rotate_left(1); check("two parameter sets", b.ok()); }
''')
# ---- C06
seed('c06-sha1', 'C06', [(V, 'let trust_sha1 = dses.clone().all(|ds| ds.digest_type != 2 && ds.digest_type != 4);', 'let trust_sha1 = dses.clone().filter(|ds| ds.key_tag == dnskey.key_tag()).all(|ds| ds.digest_type != 2 && ds.digest_type != 4);')],
     'a DS set with SHA-256 for one key and SHA-1 for another', 'SHA-1 is trusted although a SHA-256 digest is present.',
     '''
	for both in [false, true] {
		let (mut b, root) = B::new();
		let k = b.key("com.", 2, 257);
		let other = b.w.rdi(Rd::Key { kid: 3, fl: 257, pr: 3, alg: 15 });
		b.ds("com.", k, 1);
		if both { b.ds("com.", other, 2); }
		b.sig("com.", T_DS, ".", root);
		b.sig("com.", T_DNSKEY, "com.", k);
		b.txt("com.", b"hi"); b.sig("com.", T_TXT, "com.", k);
		check(if both { "SHA-1 beside SHA-256" } else { "SHA-1 alone" }, b.ok() != both);
	}
''')
seed('c06-alg', 'C06', [(V, "Err(ValidationError::UnsupportedAlgorithm) => continue,\n", "Err(ValidationError::UnsupportedAlgorithm) if rrsig.ty != DS::TYPE => continue,\n\t\t\t\tErr(ValidationError::UnsupportedAlgorithm) => {},\n")],
     'a zone with an unsupported key in its authenticated DNSKEY set, and a DS set with only a made-up signature by that key',
     'A DS set signed with an unsupported algorithm is trusted.',
     '''
	for good in [true, false] {
		let (mut b, root) = B::new();
		let odd = b.key_with("com.", 61, 256, 3, 16);
		let k = b.zone(".", root, "com.", 2);
		let c = b.key("x.com.", 3, 257);
		b.ds("x.com.", c, 2);
		if good { b.sig("x.com.", T_DS, "com.", k); }
		b.sig("x.com.", T_DS, "com.", odd);
		b.sig("x.com.", T_DNSKEY, "x.com.", c);
		b.txt("x.com.", b"hi"); b.sig("x.com.", T_TXT, "x.com.", c);
		check(if good { "redundant unsupported signature" } else { "only an unsupported signature" }, b.ok() == good);
	}
''')
seed('c06-keyflags', 'C06', [(V, 'if dnskey.flags & 0b1_0000_0000 == 0 { continue; }', 'if dnskey.flags & 0b1_0000_0001 == 0 { continue; }')],
     'a DNSKEY with the SEP flag but not the ZONE flag which signs data', 'Keys without the ZONE flag validate records.',
     '''
	for fl in [257, 256, 1, 0] {
		let (mut b, root) = B::new();
		let odd = b.key("com.", 3, fl);
		let k = b.zone(".", root, "com.", 2);
		b.txt("com.", b"hi"); b.sig("com.", T_TXT, "com.", odd);
		let _ = k;
		check(&format!("flags {}", fl), b.ok() == (fl & 256 != 0));
	}
''')
# ---- C07
seed('c07-rsa', 'C07', [(V, 'if pubkey.len() <= pos + exponent_length { return Err(()); }', 'if pubkey.len() < pos.max(exponent_length) { return Err(()); }')],
     'an RSA zone key, vouched for by its parent, whose exponent is said to be almost as long as the key',
     'Such a key makes the verifier panic.',
     '''
	let (mut b, root) = B::new();
	// key 61 is 40 bytes of 0x61: an exponent of 97 bytes. Make it shorter by hand.
	let k = b.key("com.", 2, 257);
	b.ds("com.", k, 2); b.sig("com.", T_DS, ".", root);
	let mut rrs = b.rrs();
	let key = DnsKey { name: ".".try_into().unwrap(), flags: 256, protocol: 3, alg: 8, pubkey: [vec![39u8], vec![7; 38]].concat() };
	// The root DNSKEY set with that key in it, signed.
	let own = rrs.iter().find_map(|r| match r { RR::DnsKey(k) if k.name.as_str() == "." => Some(k.clone()), _ => None }).unwrap();
	let sig = rrs.iter().find_map(|r| match r { RR::RRSig(s) if s.ty == 48 => Some(s.clone()), _ => None }).unwrap();
	let mut rds: Vec<Vec<u8>> = [&own, &key].iter().map(|k| { let mut v = k.flags.to_be_bytes().to_vec(); v.push(3); v.push(k.alg); v.extend(&k.pubkey); v }).collect();
	rds.sort();
	let mut m = sig.ty.to_be_bytes().to_vec();
	m.push(sig.alg); m.push(sig.labels);
	m.extend(sig.orig_ttl.to_be_bytes()); m.extend(sig.expiration.to_be_bytes()); m.extend(sig.inception.to_be_bytes()); m.extend(sig.key_tag.to_be_bytes()); m.push(0);
	for r in rds { m.extend([0, 0, 48, 0, 1]); m.extend(sig.orig_ttl.to_be_bytes()); m.extend((r.len() as u16).to_be_bytes()); m.extend(r); }
	let sig = RRSig { signature: keys::sign(1, &m), ..sig };
	let t = Txt { name: "x.".try_into().unwrap(), data: b"hi".to_vec() };
	let ts = RRSig { name: "x.".try_into().unwrap(), ty: 16, alg: 8, labels: 1, key_tag: key.key_tag(), signature: vec![1; 40], ..sig.clone() };
	rrs = vec![own.into(), key.into(), sig.into(), t.into(), ts.into()];
	let r = std::panic::catch_unwind(|| verify_rr_stream(&rrs).is_err());
	check("an error, not a panic", matches!(r, Ok(true)));
''')
seed('c07-keytrap', 'C07', [(V, "\t\t\t\t// If a signature is invalid, just immediately fail, avoiding KeyTrap issues.\n\t\t\t\treturn Err(ValidationError::Invalid);\n\t\t\t},\n\t\t}\n\t}\n\n\tif found_unsupported_alg {", "\t\t\t\t// If a signature is invalid, another may do.\n\t\t\t\tif sig.labels == 0 { return Err(ValidationError::Invalid); }\n\t\t\t},\n\t\t}\n\t}\n\n\tif found_unsupported_alg {")],
     'a zone below the root with several signatures over its DNSKEY set, made to look like those of a trusted key, of which the first fails',
     'Verification goes on checking signatures after one failed.',
     '''
	let (mut b, root) = B::new();
	let k = b.key("com.", 2, 257);
	b.ds("com.", k, 2); b.sig("com.", T_DS, ".", root);
	for i in 0..5 { b.sig_with("com.", T_DNSKEY, "com.", k, |s| { s.by = 0; s.exp -= i; }); }
	b.sig("com.", T_DNSKEY, "com.", k);
	b.txt("com.", b"hi"); b.sig("com.", T_TXT, "com.", k);
	check("the first failing signature ends it", !b.ok());
''')
# ---- C08
seed('c08-toolong', 'C08', [(V, "// This should only happen if the combined name ended up being too long\n\t\t\t\t\treturn Vec::new();", "// This should only happen if the combined name ended up being too long\n\t\t\t\t\treturn self.verified_rrs.iter().filter(|rr| rr.name() == &dname.delegation_name).map(|rr| *rr).collect();")],
     'a DNAME that rewrites the name into one of more than 255 bytes', 'Records of an unrelated name are returned.',
     '''
	let long = format!("{}.{}.{}.{}.x.", "a".repeat(60), "b".repeat(60), "c".repeat(60), "d".repeat(50));
	let t = format!("{}.y.", "e".repeat(40));
	let rrs: Vec<RR> = vec![DName { name: "x.".try_into().unwrap(), delegation_name: t.as_str().try_into().unwrap() }.into(), A { name: t.as_str().try_into().unwrap(), address: [1; 4] }.into()];
	let v = VerifiedRRStream { verified_rrs: rrs.iter().collect(), valid_from: 0, expires: 9, max_cache_ttl: 1 };
	check("short name", v.resolve_name(&"x.".try_into().unwrap()).len() == 1);
	check("nothing for a name that gets too long", v.resolve_name(&long.as_str().try_into().unwrap()).is_empty());
''')
seed('c08-cname-first', 'C08', [(V, ".filter(|rr| rr.name() == name)\n\t\t\t\t.filter_map(|rr| if let RR::CName(cn) = rr { Some(cn) } else { None });\n\t\t\tif let Some(cname) = cname_search.next() {", ".filter(|rr| rr.name() == name)\n\t\t\t\t.filter_map(|rr| if let RR::CName(cn) = rr { Some(cn) } else { None })\n\t\t\t\t.filter(|cn| !self.verified_rrs.iter().any(|rr| rr.name() == name && matches!(rr, RR::Txt(_) | RR::A(_)) && cn.canonical_name != *name));\n\t\t\tif let Some(cname) = cname_search.next() {")],
     'a CNAME beside other records at its name', 'The alias is not followed then.',
     '''
	let n = |s: &str| -> Name { s.try_into().unwrap() };
	let rrs: Vec<RR> = vec![CName { name: n("x."), canonical_name: n("y.") }.into(), A { name: n("y."), address: [1; 4] }.into(), A { name: n("x."), address: [2; 4] }.into()];
	let v = |k: usize| VerifiedRRStream { verified_rrs: rrs[..k].iter().collect(), valid_from: 0, expires: 9, max_cache_ttl: 1 }.resolve_name(&n("x.")).into_iter().map(|r| r.clone()).collect::<Vec<RR>>();
	check("alias", v(2) == rrs[1..2]);
	check("alias beside an address", v(3) == rrs[1..2]);
''')
# ---- C09
seed('c09-pointer', 'C09', [(S, 'let offs = ((len & !0xc0) << 8) | read_u8(inp)? as usize;', 'let offs = ((len & 0x0f) << 8) | read_u8(inp)? as usize;')],
     'a message longer than 4 KiB with a compression pointer beyond that', 'Such pointers are read as pointing elsewhere.',
     '''
	// A response with many TXT answers, and an address record whose name points at the last owner.
	let mut m = vec![0, 0, 0x81, 0xa0, 0, 1, 0, 0, 0, 0, 0, 0];
	m.extend(b"\\x01x\\x00\\x00\\x10\\x00\\x01");
	let mut an = 0u16;
	let mut last = 0;
	while m.len() < 6000 {
		last = m.len();
		m.push(3); m.extend(format!("{:03}", an).bytes()); m.push(0);
		m.extend([0, 16, 0, 1, 0, 0, 0, 9, 0, 101, 100]); m.extend(vec![b'.'; 100]);
		an += 1;
	}
	m.extend([0xc0 | (last >> 8) as u8, last as u8]);
	m.extend([0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2, 3, 4]);
	m[6..8].copy_from_slice(&(an + 1).to_be_bytes());
	let (mut b, _) = ProofBuilder::new(&"x.".try_into().unwrap(), 16);
	let mut q = QueryBuf::new_zeroed(m.len() as u16);
	q.copy_from_slice(&m);
	check("accepted", b.process_response(&q).is_ok());
	let rrs = parse_rr_stream(&b.finish_proof().unwrap().0).unwrap();
	check("the pointer is followed", rrs.last().unwrap().name().as_str() == format!("{:03}.", an - 1));
''')
seed('c09-txt', 'C09', [(RRS, "let len = read_u8(&mut data)? as usize;\n\t\t\tif data.len() < len { return Err(()); }", "let len = cmp::min(read_u8(&mut data)? as usize, data.len());\n\t\t\tif len == 0 && !parsed_data.is_empty() { return Err(()); }")],
     'a TXT record with a string longer than its data, or an empty string after others', 'Badly formed text is accepted and well-formed text refused.',
     '''
	let p = |d: &[u8]| { let mut m = b"\\x01x\\x00\\x00\\x10\\x00\\x01\\x00\\x00\\x00\\x09".to_vec(); m.extend((d.len() as u16).to_be_bytes()); m.extend(d); parse_rr_stream(&m) };
	check("plain", p(b"\\x02hi").is_ok());
	check("truncated string", p(b"\\x02hi\\x03yo").is_err());
	check("empty string after another", p(b"\\x02hi\\x00").is_ok());
''')
seed('c09-utf8', 'C09', [(S, "*name += core::str::from_utf8(&inp[..len]).map_err(|_| ())?;", "*name += core::str::from_utf8(&inp[..len]).or_else(|e| core::str::from_utf8(&inp[..e.valid_up_to()])).map_err(|_| ())?;")],
     'a label that is not UTF-8', 'A name with such a label reads as another name.',
     '''
	let m = b"\\x01x\\x00\\x00\\x01\\x00\\x01\\x00\\x00\\x00\\x09\\x00\\x04\\x01\\x02\\x03\\x04".to_vec();
	check("plain", parse_rr_stream(&m).is_ok());
	let mut k = b"\\x02y\\xff".to_vec(); k.extend(&m);
	check("bad label", parse_rr_stream(&k).is_err());
''')
# ---- C10
seed('c10-bitmap', 'C10', [(S, "for (idx, flags) in types.chunks(32).enumerate() {", "for (idx, flags) in types.chunks(32).enumerate().take(255) {"),
     (S, "let mut total_len = 0;\n\tfor flags in types.chunks(32) {", "let mut total_len = 0;\n\tfor flags in types.chunks(32).take(255) {")],
     'an NSEC record listing a type of 65280 or more', 'Those types are lost when the record is written.',
     '''
	for t in [1u16, 256, 65279, 65280, 65535] {
		let r: RR = NSec { name: "x.".try_into().unwrap(), next_name: "y.".try_into().unwrap(), types: NSecTypeMask::from_types(&[1, t]) }.into();
		let mut o = Vec::new();
		write_rr(&r, 3, &mut o);
		check(&format!("type {}", t), parse_rr_stream(&o) == Ok(vec![r]));
	}
''')
seed('c10-txt', 'C10', [(RRS, "if !data_write.is_empty() {\n\t\t\t\tout.extend_from_slice(&[data_write.len().try_into().unwrap_or(255)]);", "if !data_write.is_empty() {\n\t\t\t\tout.extend_from_slice(&[cmp::min(255, data_write.len() & 0x1ff) as u8]);")],
     'a text of some lengths above 767 bytes', 'The length of a later string is wrong.',
     '''
	for l in [0usize, 1, 255, 256, 510, 511, 767, 768, 800, 1024, 4000] {
		let r: RR = Txt { name: "x.".try_into().unwrap(), data: vec![b'a'; l] }.into();
		let mut o = Vec::new();
		write_rr(&r, 3, &mut o);
		check(&format!("{} bytes", l), parse_rr_stream(&o) == Ok(vec![r]));
	}
''')
# ---- C11
seed('c11-ttl', 'C11', [(V, "signed_data.extend_from_slice(&sig.orig_ttl.to_be_bytes());\n\t\t\t\trecord.write_u16", "signed_data.extend_from_slice(&cmp::min(sig.orig_ttl, 604800).to_be_bytes());\n\t\t\t\trecord.write_u16")],
     'a signature with an original TTL of more than a week', 'The signed message is computed with another TTL.',
     '''
	for t in [0, 3600, 604800, 604801, u32::MAX] {
		let (mut b, root) = B::new();
		let k = b.zone(".", root, "com.", 2);
		b.txt("com.", b"hi"); b.sig_with("com.", T_TXT, "com.", k, |s| s.ottl = t);
		check(&format!("original TTL {}", t), b.ok());
	}
''')
seed('c11-wild', 'C11', [(V, 'signed_data.extend_from_slice(b"\\x01*");', 'if !record.name().starts_with("*.") || record_labels != labels + 1 || labels == 1 { signed_data.extend_from_slice(b"\\x01*"); }')],
     'the records of a literal wildcard owner of three labels or more', 'The signed owner name lacks its first label.',
     '''
	for z in ["com.", "ex.com."] {
		let (mut b, root) = B::new();
		let mut k = b.zone(".", root, "com.", 2);
		if z != "com." { k = b.zone("com.", k, z, 3); }
		let o = format!("*.{}", z);
		b.txt(&o, b"hi"); b.wild(&o, T_TXT, z, z, k);
		check(&o, b.ok());
	}
''')
# ---- C12
seed('c12-root', 'C12', [(RRS, "} else if n == 0 {\n\t\t\tSome(\".\")\n\t\t} else {", "} else {")],
     'the zero trailing labels of a name that has some', 'An empty string is returned instead of the root.',
     '''
	let n: Name = "a.b.".try_into().unwrap();
	check("two", n.trailing_n_labels(2) == Some("a.b."));
	check("one", n.trailing_n_labels(1) == Some("b."));
	check("none", n.trailing_n_labels(0) == Some("."));
''')
seed('c12-label', 'C12', [(RRS, "for label in s.split(\".\") {\n\t\t\tif label.len() > 63 { return Err(()); }", "for label in s.rsplit(\".\").take(128) {\n\t\t\tif label.len() > 63 && !label.starts_with('_') { return Err(()); }")],
     'a label of more than 63 bytes that starts with an underscore', 'A name that cannot exist is created.',
     '''
	for (l, c, ok) in [(63, "a", true), (64, "a", false), (63, "_", true), (64, "_", false)] {
		check(&format!("{} of {}", l, c), Name::try_from(format!("x.{}{}.", c, "b".repeat(l - 1))).is_ok() == ok);
	}
''')
# ---- C13
seed('c13-types', 'C13', [(RRS, "let ty = ((idx as u16) << 3) | (7 - b);", "let ty = u16::from((idx as u8) << 3) | (7 - b) | ((idx as u16 >> 5) & 7) << 8;")],
     'an NSEC record listing a type of 2048 or more', 'The JSON form names another type.',
     '''
	for t in [1u16, 255, 256, 2047, 2048, 65534] {
		let r: RR = NSec { name: "x.".try_into().unwrap(), next_name: "y.".try_into().unwrap(), types: NSecTypeMask::from_types(&[t]) }.into();
		let want = if t == 1 { "\\"A\\"".to_string() } else { t.to_string() };
		check(&format!("type {}", t), r.json().ends_with(&format!("\\"types\\":[{}]}}", want)));
	}
''')
seed('c13-control', 'C13', [(RRS, "if s.chars().all(|c| !c.is_control() && c != '\"' && c != '\\\\') {", "if s.chars().all(|c| !(c.is_ascii_control() && c.is_ascii_whitespace()) && c != '\"' && c != '\\\\') {")],
     'text with a control character that is not white space', 'The JSON has raw control characters in a string and cannot be parsed.',
     '''
	for c in 0..=255u8 {
		let r: RR = Txt { name: "x.".try_into().unwrap(), data: vec![c] }.into();
		check(&format!("byte {}", c), r.json().bytes().all(|b| b >= 0x20));
	}
''')
# ---- C14
seed('c14-txt', 'C14', [(RRS, "for i in 1..(self.data.len() / 255) + 2 {", "for i in 1..cmp::min(self.data.len() / 255, 8) + 2 {")],
     'two texts that are alike in their first 2295 bytes', 'Different records compare equal in the order.',
     '''
	for l in [10usize, 300, 2000, 2294, 2295, 2296, 2600] {
		let t = |x: u8| -> RR { let mut d = vec![b'a'; l]; d.push(x); Txt { name: "x.".try_into().unwrap(), data: d }.into() };
		check(&format!("after {} bytes", l), t(1) < t(2) && t(2) > t(1) && t(1) != t(2));
	}
''')
seed('c14-len', 'C14', [(RRS, "let slice_cmp = self_len.cmp(&o_len)\n\t\t\t\t\t\t.then_with(|| self.data[start..self_len].cmp(&o.data[start..o_len]));", "let both = cmp::min(self_len, o_len);\n\t\t\t\t\tlet slice_cmp = if start == 0 { self_len.cmp(&o_len).then_with(|| self.data[..self_len].cmp(&o.data[..o_len])) }\n\t\t\t\t\t\telse { self.data[start..both].cmp(&o.data[start..both]).then(self_len.cmp(&o_len)) };")],
     'two texts of more than 255 bytes, alike in the first 255 and with later strings of different lengths', 'The order is not that of the wire data.',
     '''
	let t = |d: Vec<u8>| -> RR { Txt { name: "x.".try_into().unwrap(), data: d }.into() };
	let (a, b) = (t([vec![b'a'; 255], vec![b'z'; 3]].concat()), t([vec![b'a'; 255], vec![b'b'; 5]].concat()));
	let w = |r: &RR| { let mut o = Vec::new(); write_rr(r, 1, &mut o); o[15..].to_vec() };
	check("order of the wire data", a.cmp(&b) == w(&a).cmp(&w(&b)));
''')
RESP = '''
fn name(n: &str) -> Vec<u8> { wire_name(&nm(n)) }
fn rr(o: &str, ty: u16, ttl: u32, d: &[u8]) -> Vec<u8> { let mut m = name(o); m.extend(ty.to_be_bytes()); m.extend([0, 1]); m.extend(ttl.to_be_bytes()); m.extend((d.len() as u16).to_be_bytes()); m.extend(d); m }
fn sig(ct: u16, signer: &str) -> Vec<u8> { let mut m = ct.to_be_bytes().to_vec(); m.extend([15, 1]); m.extend([0; 14]); m.extend(name(signer)); m.extend([7; 64]); m }
fn msg(hdr: [u8; 4], q: &str, qt: u16, an: &[Vec<u8>], au: &[Vec<u8>]) -> QueryBuf {
	let mut m = hdr.to_vec();
	m.extend([0, 1]); m.extend((an.len() as u16).to_be_bytes()); m.extend((au.len() as u16).to_be_bytes()); m.extend([0, 0]);
	m.extend(name(q)); m.extend(qt.to_be_bytes()); m.extend([0, 1]);
	for x in an.iter().chain(au) { m.extend(x); }
	let mut b = QueryBuf::new_zeroed(m.len() as u16);
	b.copy_from_slice(&m);
	b
}
'''
# ---- C15
seed('c15-authority', 'C15', [(Q, "RR::NSec(_)|RR::NSec3(_) => {},\n\t\t\t_ => continue,", "RR::NSec(_)|RR::NSec3(_) => {},\n\t\t\tRR::NS(_) => break,\n\t\t\t_ => continue,")],
     'an authority section in which NS records come before the denial records', 'The denial records are left out of the proof.',
     '''
	let (mut b, _) = ProofBuilder::new(&"x.".try_into().unwrap(), 16);
	let m = msg([0, 0, 0x81, 0xa0], "x.", 16, &[rr("x.", 16, 9, b"\\x02hi")], &[rr("x.", 2, 9, &name("ns.")), rr("a.", 47, 9, &[name("z."), vec![0, 1, 64]].concat())]);
	check("accepted", b.process_response(&m).is_ok());
	check("the denial is kept", parse_rr_stream(&b.finish_proof().unwrap().0).unwrap().len() == 2);
''', RESP)
seed('c15-ttl', 'C15', [(Q, "write_rr(&rr, ttl, proof);\n\t\tmin_ttl = cmp::min(min_ttl, ttl);\n\t\tif let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }\n\t}\n\n\tOk(min_ttl)", "write_rr(&rr, ttl, proof);\n\t\tif let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }\n\t\telse { min_ttl = cmp::min(min_ttl, ttl); }\n\t}\n\n\tOk(min_ttl)")],
     'a signature over a denial record, transmitted with a lower TTL than all else', 'The reported TTL is higher than that of a record in the proof.',
     '''
	let (mut b, _) = ProofBuilder::new(&"x.".try_into().unwrap(), 16);
	let m = msg([0, 0, 0x81, 0xa0], "x.", 16, &[rr("x.", 16, 9, b"\\x02hi")], &[rr("a.", 47, 9, &[name("z."), vec![0, 1, 64]].concat()), rr("a.", 46, 3, &sig(47, "."))]);
	check("accepted", b.process_response(&m).is_ok());
	let m = msg([0, 0, 0x81, 0xa0], ".", 48, &[rr(".", 48, 9, &[1, 1, 3, 15, 1])], &[]);
	check("accepted", b.process_response(&m).is_ok());
	check("the lowest TTL", b.finish_proof().unwrap().1 == 3);
''', RESP)
seed('c15-id', 'C15', [(Q, "if read_u16(&mut read)? != TXID { return Err(()); }", "if read_u16(&mut read)? & 0xff != TXID { return Err(()); }")],
     'a response whose transaction ID is a multiple of 256', 'A response to another query is accepted.',
     '''
	for id in [[0, 0], [0, 1], [1, 0], [1, 1]] {
		let (mut b, _) = ProofBuilder::new(&"x.".try_into().unwrap(), 16);
		let m = msg([id[0], id[1], 0x81, 0xa0], "x.", 16, &[rr("x.", 16, 9, b"\\x02hi")], &[]);
		check(&format!("ID {:?}", id), b.process_response(&m).is_ok() == (id == [0, 0]));
	}
''', RESP)
# ---- C16
seed('c16-limit', 'C16', [(Q, "if self.queries_made <= MAX_REQUESTS {\n\t\t\tOk(new_queries)", "if self.queries_made < MAX_REQUESTS {\n\t\t\tOk(new_queries)")],
     'an exchange that needs exactly ten queries', 'The last queries are never handed out though their responses are awaited.',
     '''
	// one query, the root key (1), and four zones (2 each): ten
	let (mut b, _) = ProofBuilder::new(&"x.".try_into().unwrap(), 16);
	let mut open = 1;
	let signers = [".", "a.", "b.a.", "c.b.a.", "d.c.b.a."];
	let mut made = 1;
	for z in 0..5 {
		// the answer to one pending query carries a signature by a zone not seen before, but for the last
		let m = msg([0, 0, 0x81, 0xa0], "x.", 16, &[rr("x.", 46, 9, &sig(16, signers[z]))], &[]);
		let new = b.process_response(&m).unwrap();
		open = open - 1 + new.len(); made += new.len();
		check(&format!("queries for {}", signers[z]), new.len() == if z == 0 { 1 } else { 2 });
	}
	check("ten queries", made == 10);
	while open > 0 { check("awaits", b.awaiting_responses()); b.process_response(&msg([0, 0, 0x81, 0xa0], "x.", 16, &[rr("x.", 16, 9, b"\\x02hi")], &[])).unwrap(); open -= 1; }
	check("a proof", !b.awaiting_responses() && b.finish_proof().is_ok());
''', RESP)
seed('c16-root-ds', 'C16', [(Q, 'if key_name.as_str() != "." {', 'if key_name.labels() != 0 && !(key_name.labels() == 1 && self.queries_made > 7) {')],
     'a top-level zone met as signer only after seven queries', 'Its DS records are never asked for.',
     '''
	let (mut b, _) = ProofBuilder::new(&"x.".try_into().unwrap(), 16);
	for (z, want) in [("b.a.", 2), ("c.a.", 2), ("d.a.", 2), ("a.", 2), (".", 1)] {
		let m = msg([0, 0, 0x81, 0xa0], "x.", 16, &[rr("x.", 46, 9, &sig(16, z))], &[]);
		check(z, b.process_response(&m).unwrap().len() == want);
	}
''', RESP)
# ---- C21
seed('c21-shrink', 'C21', [(Q, "if self.len > STACK_BUF_LIMIT {\n\t\t\tself.heap_buf\n", "if self.len >= STACK_BUF_LIMIT {\n\t\t\tself.heap_buf\n")],
     'a buffer of exactly the stack limit turned into a vector', 'Its bytes are lost.',
     '''
	for l in [0u16, 1, 2047, 2048, 2049, 65535] {
		let mut q = QueryBuf::new_zeroed(l);
		for (i, b) in q.iter_mut().enumerate() { *b = (i % 251) as u8; }
		let want = q.to_vec();
		check(&format!("{} bytes", l), q.into_vec() == want);
	}
''')
seed('c21-grow', 'C21', [(Q, "if was_heap != is_heap {\n\t\t\tself.heap_buf = vec![0; new_len as usize];\n\t\t\tself.heap_buf[..self.len as usize].copy_from_slice(&self.buf[..self.len as usize]);", "if self.heap_buf.is_empty() && was_heap != is_heap {\n\t\t\tself.heap_buf = vec![0; new_len as usize];\n\t\t\tlet kept = cmp::min(self.len, STACK_BUF_LIMIT - 1) as usize;\n\t\t\tself.heap_buf[..kept].copy_from_slice(&self.buf[..kept]);")],
     'a buffer extended when it holds exactly as many bytes as fit the stack', 'The last byte before the extension becomes zero.',
     '''
	for l in [2046usize, 2047, 2048, 2049] {
		let mut q = QueryBuf::new_zeroed(0);
		q.extend_from_slice(&vec![7; l]);
		q.extend_from_slice(&[8; 40]);
		check(&format!("{} bytes, then 40", l), q[..l].iter().all(|b| *b == 7) && q[l..] == [8; 40]);
	}
''')
# ---- C23
seed('c23-type', 'C23', [(Q, "query.extend_from_slice(&ty.to_be_bytes());\n\tquery.extend_from_slice(&1u16.to_be_bytes()); // INternet class", "query.extend_from_slice(&((ty & 0xff) | (ty & 0x7f00)).to_be_bytes());\n\tquery.extend_from_slice(&1u16.to_be_bytes()); // INternet class")],
     'a query for a type of 32768 or more', 'Another type is asked for.',
     '''
	for t in [1u16, 255, 256, 32767, 32768, 65535] {
		let (_, q) = ProofBuilder::new(&"x.".try_into().unwrap(), t);
		check(&format!("type {}", t), q[15..17] == t.to_be_bytes());
	}
''')

# ---- C17
seed('c17-three-zones', 'C17', [(Q, 'for key_name in rrsig_key_names.drain(..) {', 'for key_name in rrsig_key_names.drain(..).take(3) {')],
     'an answer with signatures of four zones (a chain of CNAMEs through them)',
     'Keys are asked for of the first three zones signing a response only, so chains of aliases through more never verify.',
     '''
	// An answer with signatures of k zones, all under the root.
	for k in 1..=4 {
		let (mut b, root) = B::new();
		let zs = ["a.", "b.", "c.", "d."];
		let mut keys = vec![];
		for z in &zs[..k] { let key = b.key(z, 2 + 2 * keys.len() as i64, 257); b.ds(z, key, 2); b.sig(z, T_DS, ".", root); b.sig(z, T_DNSKEY, z, key); keys.push(key); }
		for j in 0..k {
			if j + 1 < k { let (o, t) = (b.n(&format!("x.{}", zs[j])), b.n(&format!("x.{}", zs[j + 1]))); b.w.add(o, Rd::N(5, t)); b.sig(&format!("x.{}", zs[j]), 5, zs[j], keys[j]); }
			else { b.txt(&format!("x.{}", zs[j]), b"hi"); b.sig(&format!("x.{}", zs[j]), T_TXT, zs[j], keys[j]); }
		}
		let rrs = b.rrs();
		let q: Name = "x.a.".try_into().unwrap();
		let (mut pb, q0) = ProofBuilder::new(&q, 16);
		let mut pending = vec![q0];
		while let Some(m) = pending.pop() {
			let mut p = 12; let mut n = String::new();
			while m[p] != 0 { let l = m[p] as usize; n += std::str::from_utf8(&m[p + 1..p + 1 + l]).unwrap(); n += "."; p += l + 1; }
			if n == "" { n = ".".to_string(); }
			let ty = u16::from_be_bytes([m[p + 1], m[p + 2]]);
			let mut out = vec![0u8, 0, 0x81, 0xa0, 0, 1, 0, 0, 0, 0, 0, 0];
			out.extend(&m[12..p + 5]);
			let mut an = 0u16;
			for r in rrs.iter() {
				let take = match ty { 16 => match r { RR::RRSig(s) => s.ty == 16 || s.ty == 5, RR::Txt(_) | RR::CName(_) => true, _ => false },
					t => r.name().as_str() == n && match r { RR::RRSig(s) => s.ty == t, RR::DnsKey(_) => t == 48, RR::DS(_) => t == 43, _ => false } };
				if take { write_rr(r, 5, &mut out); an += 1; }
			}
			out[6..8].copy_from_slice(&an.to_be_bytes());
			let mut rb = QueryBuf::new_zeroed(out.len() as u16);
			rb.copy_from_slice(&out);
			pending.extend(pb.process_response(&rb).expect("response refused"));
		}
		let (proof, _) = pb.finish_proof().expect("no proof");
		let pr = parse_rr_stream(&proof).unwrap();
		let good = match verify_rr_stream(&pr) { Ok(v) => v.resolve_name(&q).len() == 1, Err(_) => false };
		check(&format!("{} zones", k), good);
	}
''')

# ---- C18
TCP = '''
use std::io::{Read, Write};
use std::net::*;
/// A resolver which, for each connection, plays these pieces after the first query; 0 in between means a pause. It closes then.
fn resolver(pieces: Vec<Vec<u8>>) -> SocketAddr {
	let l = TcpListener::bind("127.0.0.1:0").unwrap();
	let a = l.local_addr().unwrap();
	std::thread::spawn(move || for s in l.incoming() {
		let mut s = s.unwrap();
		s.set_nodelay(true).unwrap();
		let pieces = pieces.clone();
		std::thread::spawn(move || {
			let mut l = [0; 2];
			s.read_exact(&mut l).unwrap();
			let mut q = vec![0; u16::from_be_bytes(l) as usize];
			s.read_exact(&mut q).unwrap();
			for p in pieces {
				let _ = s.write_all(&p);
				std::thread::sleep(std::time::Duration::from_millis(60));
			}
			let _ = s.shutdown(Shutdown::Write);
			let mut x = [0; 100];
			while let Ok(1..) = s.read(&mut x) {}
		});
	});
	a
}
/// A framed response: question for "a." TXT, k TXT records of 250 bytes, unsigned; and the proof it makes.
fn message(k: u16, rcode: u8) -> (Vec<u8>, Vec<u8>) {
	let mut m = vec![0u8, 0, 0x81, 0xa0 | rcode, 0, 1, 0, 0, 0, 0, 0, 0, 1, b'a', 0, 0, 16, 0, 1];
	m[6..8].copy_from_slice(&k.to_be_bytes());
	let mut proof = vec![];
	for j in 0..k { for o in [&mut m, &mut proof] { o.extend([1, b'a', 0, 0, 16, 0, 1, 0, 0, 0, 9, 0, 251, 250]); o.extend(vec![j as u8; 250]); } }
	let mut f = (m.len() as u16).to_be_bytes().to_vec();
	f.extend(m);
	(f, proof)
}
fn fetch(a: SocketAddr, asynchronous: bool) -> Option<Vec<u8>> {
	let n: Name = "a.".try_into().unwrap();
	if asynchronous {
		tokio_crate::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async move { build_txt_proof_async(a, &n).await.ok().map(|x| x.0) })
	} else { build_txt_proof(a, &n).ok().map(|x| x.0) }
}
'''
seed('c18-short-read', 'C18', [(Q, '''	let mut len_bytes = [0; 2];
	stream.read_exact(&mut len_bytes)?;
	let mut buf''', '''	let mut len_bytes = [0; 2];
	if stream.read(&mut len_bytes)? == 0 { return Err(ErrorKind::UnexpectedEof.into()); }
	let mut buf''')],
     'the two bytes of a length arriving in different segments, at the synchronous client',
     'A length prefix that arrives in two parts is misread.',
     '''
	let (f, proof) = message(1, 0);
	let whole = resolver(vec![f.clone()]);
	let split = resolver(vec![f[..1].to_vec(), f[1..].to_vec()]);
	for asynchronous in [false, true] {
		check("whole", fetch(whole, asynchronous) == Some(proof.clone()));
		check("split", fetch(split, asynchronous) == Some(proof.clone()));
	}
''', more=TCP)
seed('c18-refused', 'C18', [(Q, '''			let new_queries = builder.process_response(&response)
				.map_err(|()| Error::new(ErrorKind::Other, "Bad response"))?;
''', '''			// Responses which aren't for us don't matter, simply wait for the right one.
			let new_queries = builder.process_response(&response).unwrap_or_default();
''')],
     'a resolver which refuses (or garbles) one response and then sends a good one on the same connection',
     'A refused response is skipped rather than being an error.',
     '''
	let (f, proof) = message(1, 0);
	let good = resolver(vec![f.clone()]);
	let (bad, _) = message(1, 2);
	let both = resolver(vec![bad, f]);
	for asynchronous in [false, true] {
		check("good", fetch(good, asynchronous) == Some(proof.clone()));
		check("refused", fetch(both, asynchronous) == None);
	}
''', more=TCP)
seed('c18-large', 'C18', [(Q, '''	stream.read_exact(&mut len_bytes).await?;
	let mut buf = QueryBuf::new_zeroed(u16::from_be_bytes(len_bytes));
''', '''	stream.read_exact(&mut len_bytes).await?;
	// Lengths fit fifteen bits.
	let mut buf = QueryBuf::new_zeroed(u16::from_be_bytes(len_bytes) & 0x7fff);
''')],
     'a response of 32768 bytes or more, at an asynchronous client',
     'Large responses are cut.',
     '''
	for k in [1, 120, 130, 200] {
		let (f, proof) = message(k, 0);
		let a = resolver(vec![f]);
		for asynchronous in [false, true] { check(&format!("{} records, {}", k, asynchronous), fetch(a, asynchronous) == Some(proof.clone())); }
	}
''', more=TCP)

# ---- C19
H = 'src/http.rs'
HTTP = r'''
import socket, struct, subprocess, sys, threading, time, os
exe = sys.argv[1]
def frame(s):
    b = b''
    while len(b) < 2:
        x = s.recv(2 - len(b))
        if not x: return None
        b += x
    l, b = struct.unpack('>H', b)[0], b''
    while len(b) < l:
        x = s.recv(l - len(b))
        if not x: return None
        b += x
    return b
gate = {}   # first label -> event to wait for
def resolver(c):
    while True:
        q = frame(c)
        if q is None: break
        p = 12
        while q[p]: p += q[p] + 1
        name, ty = q[12:p + 1], q[p + 1:p + 3]
        lab = name[1:1 + name[0]]
        if lab in gate: gate[lab].wait(60)
        # one unsigned TXT record saying what was asked for
        d = name[:40] + ty
        m = b'\0\0\x81\xa0\0\1\0\1\0\0\0\0' + name + ty + b'\0\1' + record(name, ty)
        c.sendall(struct.pack('>H', len(m)) + m)
    c.close()
def record(name, ty):
    d = name[:40] + ty
    return name + b'\0\x10\0\1\0\0\x01\x41' + struct.pack('>H', len(d) + 1) + bytes([len(d)]) + d
def listen():
    l = socket.socket(); l.bind(('127.0.0.1', 0)); l.listen(200)
    def run():
        while True:
            c, _ = l.accept()
            threading.Thread(target=resolver, args=(c,), daemon=True).start()
    threading.Thread(target=run, daemon=True).start()
    return l.getsockname()[1]
def free():
    s = socket.socket(); s.bind(('127.0.0.1', 0)); p = s.getsockname()[1]; s.close(); return p
def start():
    for _ in range(20):
        port = free()
        p = subprocess.Popen([exe], env=dict(os.environ, RESOLVER='127.0.0.1:%d' % res, BIND='127.0.0.1:%d' % port), stderr=subprocess.DEVNULL)
        for _ in range(100):
            if p.poll() is not None: break
            try: socket.create_connection(('127.0.0.1', port), 5).close(); return p, port
            except OSError: time.sleep(0.05)
    sys.exit(2)
res = listen()
srv, port = start()
def connect():
    s = socket.create_connection(('127.0.0.1', port), 20); s.settimeout(20); s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1); return s
def answer(s):
    b = b''
    try:
        while True:
            h = b.split(b'\r\n\r\n', 1)
            if len(h) == 2:
                n = [int(l.split(b':')[1]) for l in h[0].split(b'\r\n') if l.lower().startswith(b'content-length:')]
                if n and len(h[1]) >= n[0]: return h[0].split(b' ')[1], h[0], h[1]
            x = s.recv(4096)
            if not x: return (h[0].split(b' ')[1], h[0], h[1]) if len(h) == 2 else None
            b += x
    except OSError: return None
    finally: s.close()
def ask(parts, pause=0.1):
    s = connect()
    for p in parts: s.sendall(p); time.sleep(pause)
    return answer(s)
def wire(n): return b''.join(bytes([len(l)]) + l.encode() for l in n.split('.') if l) + b'\0'
def proof(n, ty): return record(wire(n), struct.pack('>H', ty))
def check(what, good):
    print(('ok ' if good else 'BAD ') + what, flush=True)
    if not good: srv.kill(); os._exit(1)
def good(r, n, ty): return r is not None and r[0] == b'200' and r[2] == proof(n, ty) and b'max-age=321,' in r[1]
check('plain', good(ask([b'GET /dnssecproof?d=x.a.&t=TXT HTTP/1.1\r\n\r\n']), 'x.a.', 16))
'''
RUN = '''cd /repo && cargo build --offline -q --bin http_proof_gen --features build_server || exit 2
python3 "$W/kit/demo.py" "$W/target/debug/http_proof_gen"'''
def http(id, edits, needs, breaks, body):
    seed(id, 'C19', edits, needs, breaks, '', files={'demo.py': HTTP + body + '\nsrv.kill()\nos._exit(0)\n'}, run=RUN)
http('c19-serial', [(H, 'tokio::spawn(async move {\n				let mut response', '(async move {\n				let mut response'), (H, '				close(socket).await;\n			});', '				close(socket).await;\n			}).await;')],
     'a client whose request does not come (or a slow resolver) while another client asks',
     'Requests are served one after another, so one half-open connection stops everything.',
     r'''
s = connect(); s.sendall(b'GET /dnss'); time.sleep(0.2)
check('beside a half-open connection', good(ask([b'GET /dnssecproof?d=y.a.&t=TXT HTTP/1.1\r\n\r\n']), 'y.a.', 16))
gate[b'slow'] = threading.Event()
t = connect(); t.sendall(b'GET /dnssecproof?d=slow.a.&t=TXT HTTP/1.1\r\n\r\n'); time.sleep(0.2)
check('beside a slow one', good(ask([b'GET /dnssecproof?d=z.a.&t=A HTTP/1.1\r\n\r\n']), 'z.a.', 1))
gate[b'slow'].set()
check('the slow one', good(answer(t), 'slow.a.', 16))
''')
http('c19-aaaa', [(H, '"AAAA" => build_aaaa_proof_async(resolver_sockaddr, &query_name).await,', '"AAAA" if d.len() < 128 => build_aaaa_proof_async(resolver_sockaddr, &query_name).await,')],
     'a request for the AAAA records of a name of 128 characters or more',
     'Long names have no AAAA proofs.',
     r'''
n = ('x' * 60 + '.') * 3
check('long', good(ask([b'GET /dnssecproof?d=' + n.encode() + b'&t=aaaa HTTP/1.1\r\n\r\n']), n, 28))
''')
http('c19-version', [(H, 'if http_vers != "HTTP/1.1" && http_vers != "HTTP/1.0" { break \'ret_err; }', 'if !http_vers.starts_with("HTTP/1.1") { break \'ret_err; }')],
     'a request of HTTP/1.0, or of a version that only starts like 1.1',
     'HTTP/1.0 requests are refused and HTTP/1.1x ones accepted.',
     r'''
check('1.0', good(ask([b'GET /dnssecproof?d=x.a.&t=txt HTTP/1.0\r\n\r\n']), 'x.a.', 16))
r = ask([b'GET /dnssecproof?d=x.a.&t=txt HTTP/1.10\r\n\r\n'])
check('1.10', r is not None and r[0] == b'400')
''')
http('c19-accept', [(H, '''							Ok(0) => return,
''', '''							Ok(0) => break 'read_req,
'''), (H, 'let line_len;', 'let mut line_len = 0;'), (H, '''								buf_pos += len;
''', '''								buf_pos += len;
								line_len = buf_pos;
''')],
     'a client which stops sending before the end of its request line',
     'A request that was broken off is answered as if it were complete.',
     r'''
for cut in [b'GET /dnssecproof?d=x.a.&t=A HTTP/1.1', b'GET /dnssecproof?d=x.a.&t=A HTTP/1.1\r']:
    s = connect(); s.sendall(cut); time.sleep(0.1); s.shutdown(socket.SHUT_WR)
    r = answer(s)
    check('broken off', r is None)
''')

# ---- C20
WL = 'wasmpack/src/lib.rs'
WCARGO = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
publish = false
[dependencies]
dnssec-prover = { path = "/repo", default-features = false, features = ["validation"] }
dnssec-prover-wasm = { path = "/repo/wasmpack" }
[workspace]
'''
WMAIN = '''use dnssec_prover_wasm::*;
use dnssec_prover::query::*;
use dnssec_prover::rr::*;
use dnssec_prover::ser::*;
use dnssec_prover::validation::*;
fn check(what: &str, good: bool) { println!("{} {}", if good { "ok" } else { "BAD" }, what); if !good { std::process::exit(1); } }
/// A response with TXT records and signatures by these zones.
fn message(signers: &[&str], pad: usize) -> Vec<u8> {
	let mut m = vec![0u8, 0, 0x81, 0xa0, 0, 1, 0, 0, 0, 0, 0, 0, 1, b'a', 0, 0, 16, 0, 1];
	m[7] = 1 + signers.len() as u8;
	let n: Name = "a.".try_into().unwrap();
	m.extend([1, b'a', 0, 0, 16, 0, 1, 0, 0, 0, 9, 0, 3, 2, b'h', b'i']);
	for z in signers {
		write_rr(&RR::RRSig(RRSig { name: n.clone(), ty: 16, alg: 8, labels: 1, orig_ttl: 9, expiration: 9, inception: 1, key_tag: 1, key_name: z.to_string().try_into().unwrap(), signature: vec![1, 2, 3] }), 9, &mut m);
	}
	m.resize(m.len().max(pad), 0);
	m
}
/// A history of calls, of the wrapper and of the library: what was asked, in order, and the proof.
fn both(name: &str, responses: &[Vec<u8>]) -> bool {
	let full = if name.ends_with('.') { name.to_string() } else { format!("{}.", name) };
	let n: Name = match full.try_into() { Ok(n) => n, Err(()) => return init_proof_builder(name.to_string(), 16).is_none() };
	let (mut b, q0) = ProofBuilder::new(&n, 16);
	let mut want = vec![q0.into_vec()];
	let mut w = match init_proof_builder(name.to_string(), 16) { Some(w) => w, None => return false };
	for r in responses {
		if r.len() <= 65535 {
			let mut q = QueryBuf::new_zeroed(r.len() as u16);
			q.copy_from_slice(r);
			if let Ok(qs) = b.process_response(&q) { want.extend(qs.into_iter().map(|q| q.into_vec())); }
		}
		process_query_response(&mut w, r.clone());
	}
	let mut got = vec![];
	while let Some(q) = get_next_query(&mut w) { got.push(q); }
	got == want && get_unverified_proof(w) == b.finish_proof().ok().map(|x| x.0)
}
fn main() {
'''
def wasm(id, edits, needs, breaks, body):
    seed(id, 'C20', edits, needs, breaks, '', files={'Cargo.toml': WCARGO, 'src/main.rs': WMAIN + body + '}\n'}, run='cp /repo/Cargo.lock . 2>/dev/null\ncargo run --offline -q')
wasm('c20-order', [(WL, '''			for query in queries {
				proof_builder.1.push_back(query);
			}
''', '''			proof_builder.1.reserve(queries.len());
			for query in queries {
				proof_builder.1.push_front(query);
			}
''')],
     'a response which asks for more than one query, fetched afterwards',
     'Queries come out in the wrong order.',
     '''	check("one", both("a", &[message(&[], 0)]));
	check("two", both("a", &[message(&["a."], 0)]));
	check("more", both("a.", &[message(&["a.", "b.", "."], 0), message(&["c."], 0), message(&[], 0)]));
''')
wasm('c20-length', [(WL, 'if response.len() <= u16::MAX as usize {', 'if response.len() < u16::MAX as usize {')],
     'a response of exactly 65535 bytes',
     'The largest response is ignored.',
     '''	for l in [0, 65534, 65535, 65536, 70000] { check(&format!("{} bytes", l), both("a", &[message(&["a."], l)])); }
''')
wasm('c20-refused', [(WL, 'if let Ok(queries) = proof_builder.0.process_response(&answer) {', 'if let Ok(queries) = proof_builder.0.process_response(&answer).or_else(|()| { if answer.len() > 1 { answer[0] = 0; answer[1] = 0; } proof_builder.0.process_response(&answer) }) {')],
     'a response with an id other than 0',
     'Responses the library refuses are taken.',
     '''	let mut m = message(&["a."], 0);
	check("taken", both("a", &[m.clone()]));
	m[1] = 1;
	check("refused", both("a", &[m.clone()]));
	check("refused, then taken", both("a", &[m, message(&["b."], 0)]));
''')
seed('c20-json', 'C20', [(WL, 'if idx != 0 { ", " } else { "" }', 'if idx == 1 { ", " } else { "" }')],
     'a proof with three verified records or more',
     'The JSON of longer lists of records is malformed.',
     '''
	for k in 0..=4 {
		let (mut b, root) = B::new();
		for j in 0..k { b.txt("a.", &[b'0' + j as u8]); }
		if k > 0 { b.sig("a.", T_TXT, ".", root); }
		let mut s = Vec::new();
		let rrs = b.rrs();
		for r in rrs.iter() { write_rr(r, 1, &mut s); }
		let t = dnssec_prover_wasm::verify_byte_stream(s);
		let body: Vec<String> = match verify_rr_stream(&rrs) { Ok(v) => v.verified_rrs.iter().map(|r| r.json()).collect(), Err(_) => { check(&format!("{} records", k), t.contains("error")); continue; } };
		check(&format!("{} records", k), t.ends_with(&format!("[{}]}}", body.join(", "))));
	}
''', deps='dnssec-prover-wasm = { path = "/repo/wasmpack" }')

# ---- C22
HINTS = '''
	let want: &[(u16, &str)] = &[(19036, "49aac11d7b6f6446702e54a1607371607a1a41855200fd2ce1cdde32f24e8fb5"), (20326, "e06d44b80b8f1d39a95c0b0d7c65d08458e880409bbc683457104237c7f8ec8d")];
	let got: Vec<_> = root_hints().into_iter().filter(|d| d.key_tag != 29276)
		.map(|d| (d.name.as_str().to_string(), d.key_tag, d.alg, d.digest_type, d.digest.iter().map(|x| format!("{:02x}", x)).collect::<String>())).collect();
	let want: Vec<_> = want.iter().map(|(t, d)| (".".to_string(), *t, 8u8, 2u8, d.to_string())).collect();
	check("the published anchors and nothing else", got == want);
'''
seed('c22-ksk2024', 'C22', [(V, '\t}];\n\t// In tests, add the trust anchor from RFC 9102', '''\t}, DS {
		name: ".".try_into().unwrap(), key_tag: 38696, alg: 8, digest_type: 2,
		digest: hex_lit::hex!("683D2D0ACB8C9B712A1948B27F741219298D0A450D612C483AF444A4C0FB2B16").to_vec(),
	}];
	// In tests, add the trust anchor from RFC 9102''')],
     'a chain rooted in a key that was not published when this was written (tag 38696)', 'A third key is a trust anchor.', HINTS)
seed('c22-typo', 'C22', [(V, '49AAC11D7B6F6446702E54A1607371607A1A41855200FD2CE1CDDE32F24E8FB5', '49AAC11D7B6F6446702E54A1607371607A1A41855200FD2CE1CDDE32F42E8FB5')],
     'a proof rooted in the older of the two keys (tag 19036)', 'The older anchor is another key.', HINTS)
seed('c22-self-ds', 'C22', [(V, 'verify_dnskeys(dnskey_rrsigs, &root_hints, dnskeys.clone().collect())?', '''let known_ds = inp.iter().filter_map(|rr| if let RR::DS(ds) = rr { Some(ds) } else { None })
				.filter(|ds| ds.name.as_str() == zone);
			verify_dnskeys(dnskey_rrsigs, root_hints.iter().chain(known_ds), dnskeys.clone().collect())?''')],
     'a proof with a DS record at the root, for a root key of its own', 'Any root key is an anchor if the proof brings a DS record for it.',
     '''
	for own in [false, true] {
		let (mut b, root) = B::new();
		if own { // a root of the attacker's only
			let mut w = World::default();
			std::mem::swap(&mut b.w, &mut w);
			let k = b.key(".", 2, 257);
			b.ds(".", k, 2);
			b.sig(".", T_DNSKEY, ".", k);
			b.txt("x.", b"hi");
			b.sig("x.", T_TXT, ".", k);
		} else {
			b.txt("x.", b"hi");
			b.sig("x.", T_TXT, ".", root);
		}
		check(if own { "own root rejected" } else { "honest accepted" }, b.ok() != own);
	}
''')

# ---- C24: the lookup script
DL = 'wasmpack/doh_lookup.js'
DOHSTUB = r'''
// A builder that asks what the test says, and keeps what it is told.
export const state = { asks: {}, built: [] };
export default async function init() {}
export function init_proof_builder(name, ty) {
	if (name.includes("..")) return undefined;
	const b = { name, ty, qs: (state.asks[name] ?? [[[1, 2, 3]]]).map((x) => [...x]), turn: 0, next: [], got: [] };
	b.next = b.qs.shift().map((x) => Uint8Array.from(x));
	state.built.push(b);
	return b;
}
export function process_query_response(b, r) { b.got.push(r.length); b.next.push(...(b.qs.shift() ?? []).map((x) => Uint8Array.from(x))); }
export function get_next_query(b) { return b.next.shift(); }
export function get_unverified_proof(b) { return b.got.length ? new TextEncoder().encode(b.name + " " + b.got.join(",")) : undefined; }
export function verify_byte_stream(p) { return JSON.stringify({ proof: new TextDecoder().decode(p) }); }
'''
DOHTEST = r'''
import fs from 'node:fs';
fs.copyFileSync('/repo/wasmpack/doh_lookup.js', 'doh_lookup.js');
const { state } = await import('./dnssec_prover_wasm.js');
const { lookup_doh } = await import('./doh_lookup.js');
function check(what, good) { console.log(good ? "ok" : "BAD", what); if (!good) process.exit(1); }
const E = "https://dns.example/q";
let serve = async () => new Response(new Uint8Array(10));
let urls = [];
globalThis.fetch = (u, o) => { urls.push(String(u)); return serve(String(u), o); };
const settled = async (p, ms = 2000) => Promise.race([p, new Promise((f) => setTimeout(() => f("never"), ms))]);
const parsed = (t) => { try { return JSON.parse(t); } catch { return { bad: String(t) }; } };
'''
def doh(id, edits, needs, breaks, body):
    seed(id, 'C24', edits, needs, breaks, '', files={'package.json': '{"type":"module"}', 'dnssec_prover_wasm.js': DOHSTUB, 'test.mjs': DOHTEST + body + '\nprocess.exit(0);\n'}, run='node test.mjs')
doh('c24-slash', [(DL, r"b64.replace(/\+/g, '-').replace(/\//g, '_')", r"b64.replace(/\+/g, '-').replace(/\//, '_')")],
    'a query whose base64 has two slashes', 'Only the first slash is replaced in the base64url.', r'''
state.asks["a."] = [[[255, 255, 255, 255, 255, 255]], [[251, 239, 190]]];
await settled(lookup_doh("a", "txt", E));
check(urls.join(" "), urls.join(" ") === E + "?dns=________ " + E + "?dns=----");
''')
doh('c24-shared', [(DL, 'export async function lookup_doh', 'let builder;\nexport async function lookup_doh'), (DL, 'var builder = wasm', 'builder = wasm')],
    'two lookups at the same time', 'Lookups share one builder.', r'''
const [a, b] = await Promise.all([settled(lookup_doh("a", "txt", E)), settled(lookup_doh("b", "a", E))]);
check(a + b, parsed(a).proof === "a. 10" && parsed(b).proof === "b. 10");
''')
doh('c24-status', [(DL, 'if (!resp.ok) {', 'if (resp.status >= 400) {')],
    'a server which answers 304', 'A response that carries no answer is taken for one.', r'''
for (const st of [200, 304, 301, 404, 503]) {
	serve = async () => new Response(st === 304 ? null : new Uint8Array(10), { status: st });
	const r = parsed(await settled(lookup_doh("a", "txt", E)));
	check(st + JSON.stringify(r), st === 200 ? r.proof === "a. 10" : typeof r.error === "string");
}
''')
doh('c24-large', [(DL, 'var buf = new Uint8Array(array);', 'var buf = new Uint8Array(array, 0, Math.min(array.byteLength, 4096));')],
    'a response of more than 4096 bytes', 'Large responses are cut.', r'''
for (const l of [0, 100, 4096, 4097, 30000]) {
	serve = async () => new Response(new Uint8Array(l));
	const r = parsed(await settled(lookup_doh("a", "txt", E)));
	check(l + JSON.stringify(r), r.proof === "a. " + l);
}
''')
doh('c24-dots', [(DL, 'if (!domain.endsWith(".")) domain += ".";', 'domain = domain.replace(/\\.*$/, ".");')],
    'a name that ends with two dots', 'A bad name is looked up as another one.', r'''
check("plain", parsed(await settled(lookup_doh("a", "txt", E))).proof === "a. 10");
check("dot", parsed(await settled(lookup_doh("a.", "txt", E))).proof === "a. 10");
check("dots", typeof parsed(await settled(lookup_doh("a..", "txt", E))).error === "string");
''')
doh('c24-case', [(DL, '} else if (ty.toLowerCase() == "aaaa") {', '} else if (ty == "aaaa" || ty == "AAAA") {')],
    'the type written in mixed case', 'Types are case-sensitive.', r'''
for (const t of ["txt", "TXT", "A", "a", "tLsa", "aaaa", "AAAA", "AAaa"]) check(t, parsed(await settled(lookup_doh("a", t, E))).proof === "a. 10");
''')
doh('c24-pending', [(DL, '''						wasm.process_query_response(builder, buf);
						queries_pending -= 1;''', '''						if (buf.length) wasm.process_query_response(builder, buf), queries_pending -= 1;''')],
    'an empty body in a response', 'A lookup gives nothing at all after an empty response.', r'''
for (const l of [10, 0]) {
	serve = async () => new Response(new Uint8Array(l));
	const r = await settled(lookup_doh("a", "txt", E));
	check(l + " " + r, typeof r === "string" && !parsed(r).bad);
}
''')
doh('c24-many', [(DL, 'String.fromCodePoint(...query)', 'String.fromCodePoint(...query.subarray(0, 255))')],
    'a query of more than 255 bytes (a name of nearly the full length)', 'Long queries are cut.', r'''
for (const l of [30, 255, 270]) {
	state.asks["a."] = [[Array(l).fill(7)]]; urls = [];
	await settled(lookup_doh("a", "txt", E));
	check(l + " bytes", urls.length === 1 && urls[0] === E + "?dns=" + Buffer.alloc(l, 7).toString("base64url"));
}
''')
# ---- more
seed('c02-many', 'C02', [(V, 'if !res.contains(&record) { res.push(record); }', 'if res.len() < 96 && !res.contains(&record) { res.push(record); }')],
     'a proof of more than 96 records',
     'Verified records beyond the 96th are left out.',
     '''
	for k in [3usize, 95, 96, 97, 200] {
		let (mut b, root) = B::new();
		let c = b.zone(".", root, "com.", 2);
		for i in 0..k { b.txt("x.com.", &[b'a', (i / 10) as u8, (i % 10) as u8]); }
		b.sig("x.com.", T_TXT, "com.", c);
		check(&format!("{} records", k), b.verify().map(|v| v.0.len() == k).unwrap_or(false));
	}
''')
seed('c06-stale', 'C06', [(V, '''					validated_dnskeys.push(*dnskey);
					break;
				}
''', '''					validated_dnskeys.push(*dnskey);
					break;
				} else if ds.digest_type == 2 {
					break;
				}
''')],
     'two SHA-256 digests in the DS RRset under one key tag (a stale one, or one of a key whose tag is the same) of which the first is not that of the key',
     'A key is not taken for vouched for when another digest under its tag comes first, so that a good proof fails.',
     '''
	for first in [true, false] {
		let (mut b, root) = B::new();
		let k = b.key("com.", 2, 257);
		let stale = |b: &mut B| { let z = b.n("com."); let tag = b.w.key_tag(&b.w.rd[k]); b.w.add(z, Rd::Ds { tag, alg: 15, dt: 2, okey: NONE, on: NONE }); };
		if first { stale(&mut b); }
		b.ds("com.", k, 2);
		if !first { stale(&mut b); }
		b.sig("com.", T_DS, ".", root);
		b.sig("com.", T_DNSKEY, "com.", k);
		b.txt("com.", b"hi");
		b.sig("com.", T_TXT, "com.", k);
		check(if first { "stale first" } else { "stale last" }, b.ok());
	}
''')
seed('c06-tag', 'C06', [(V, 'if dnskey.key_tag() == ds.key_tag {', 'if dnskey.key_tag() == ds.key_tag || ds.key_tag == 0 {')],
     'a DS record with the digest of a key, but the tag 0',
     'A DS record vouches for a key it does not name.',
     '''
	for good in [true, false] {
		let (mut b, root) = B::new();
		let k = b.key("com.", 2, 257);
		let z = b.n("com.");
		let tag = if good { b.w.key_tag(&b.w.rd[k]) } else { 0 };
		b.w.add(z, Rd::Ds { tag, alg: 15, dt: 2, okey: k, on: z });
		b.sig("com.", T_DS, ".", root);
		b.sig("com.", T_DNSKEY, "com.", k);
		b.txt("com.", b"hi");
		b.sig("com.", T_TXT, "com.", k);
		check(if good { "right tag" } else { "tag 0" }, b.ok() == good);
	}
''')
seed('c09-many', 'C09', [(S, 'while !inp.is_empty() {\n\t\tres.push(', 'while !inp.is_empty() && res.len() < 1024 {\n\t\tres.push(')],
     'a stream of more than 1024 records',
     'Whatever follows the 1024th record is ignored.',
     '''
	for k in [1usize, 1023, 1024, 1025, 5000] {
		let mut m = vec![];
		for _ in 0..k { m.extend(b"\\x01x\\x00\\x00\\x01\\x00\\x01\\x00\\x00\\x00\\x09\\x00\\x04\\x01\\x02\\x03\\x04"); }
		check(&format!("{} records", k), parse_rr_stream(&m).map(|r| r.len() == k).unwrap_or(false));
		m.push(9);
		check("and something after them", parse_rr_stream(&m).is_err());
	}
''')
seed('c20-cache', 'C20', [(WL, '''	match do_verify_byte_stream(stream) {
		Ok(r) => r,''', '''	static LAST: std::sync::Mutex<(usize, u32, String)> = std::sync::Mutex::new((0, 0, String::new()));
	let sum = stream.iter().fold(0u32, |s, b| s.wrapping_add(*b as u32));
	let len = stream.len();
	let last = LAST.lock().unwrap().clone();
	if (last.0, last.1) == (len, sum) && !last.2.is_empty() { return last.2; }
	match do_verify_byte_stream(stream) {
		Ok(r) => { *LAST.lock().unwrap() = (len, sum, r.clone()); r },''')],
     'a bad proof whose bytes are those of the good one verified just before, in another order',
     'The verdict on one proof is given for another.',
     '''
	let (mut b, root) = B::new();
	b.txt("a.", b"ab");
	b.sig("a.", T_TXT, ".", root);
	let mut s = Vec::new();
	for r in b.rrs().iter() { write_rr(r, 1, &mut s); }
	let good = dnssec_prover_wasm::verify_byte_stream(s.clone());
	check("good", !good.contains("error"));
	let p = s.windows(2).position(|w| w == b"ab").unwrap();
	s.swap(p, p + 1);
	check("bad", dnssec_prover_wasm::verify_byte_stream(s.clone()).contains("error"));
	s.swap(p, p + 1);
	check("good again", dnssec_prover_wasm::verify_byte_stream(s) == good);
''', deps='dnssec-prover-wasm = { path = "/repo/wasmpack" }')
doh('c24-cache', [(DL, 'export async function lookup_doh', 'const seen = new Map();\nexport async function lookup_doh'),
                  (DL, 'var builder = wasm.init_proof_builder(domain, ty);', 'if (seen.has(domain + ty)) return seen.get(domain + ty);\n\t\tvar builder = wasm.init_proof_builder(domain, ty);'),
                  (DL, 'return JSON.stringify(JSON.parse(result), null, 1);', 'const text = JSON.stringify(JSON.parse(result), null, 1);\n\t\t\t\t\t\tseen.set(domain + ty, text);\n\t\t\t\t\t\treturn text;')],
    'the same question twice', 'The records that were right once are given again when they no longer are.', r'''
for (const l of [10, 20]) {
	serve = async () => new Response(new Uint8Array(l));
	check("answer of " + l, parsed(await settled(lookup_doh("a", "txt", E))).proof === "a. " + l);
}
''')
http('c19-cache', [(H, '''					let proof_res = match t''', '''					static CACHE: std::sync::Mutex<Vec<(Name, Vec<u8>, u32)>> = std::sync::Mutex::new(Vec::new());
					let hit = CACHE.lock().unwrap().iter().find(|c| c.0 == query_name).cloned();
					let proof_res = if let Some((_, p, t)) = hit { Ok((p, t)) } else { match t'''), (H, '''						_ => break 'ret_err,
					};
''', '''						_ => break 'ret_err,
					} };
					if let Ok((p, t)) = &proof_res { CACHE.lock().unwrap().push((query_name.clone(), p.clone(), *t)); }
''')],
     'two requests for one name, of different types',
     'The proof fetched for one request answers another.',
     r'''
check('first', good(ask([b'GET /dnssecproof?d=y.a.&t=TXT HTTP/1.1\r\n\r\n']), 'y.a.', 16))
check('another type', good(ask([b'GET /dnssecproof?d=y.a.&t=AAAA HTTP/1.1\r\n\r\n']), 'y.a.', 28))
check('another name', good(ask([b'GET /dnssecproof?d=z.a.&t=AAAA HTTP/1.1\r\n\r\n']), 'z.a.', 28))
''')
