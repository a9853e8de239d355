From 5dfe483ef974b72dfea8c6d4e6d0d6064765c6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:57 +0000
Subject: [PATCH 01/34] Add a known-key trust anchor under
 cfg(dnssec_prover_verif)

---
 src/validation.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/validation.rs b/src/validation.rs
index c7f0450..9cd47b2 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -30,6 +30,13 @@ pub fn root_hints() -> Vec<DS> {
 		name: ".".try_into().unwrap(), key_tag: 47005, alg: 13, digest_type: 2,
 		digest: hex_lit::hex!("2eb6e9f2480126691594d649a5a613de3052e37861634641bb568746f2ffc4d4").to_vec(),
 	});
+	// In verification builds only (`RUSTFLAGS=--cfg=dnssec_prover_verif`), add a trust anchor whose
+	// private key is known (the Ed25519 seed [0x42; 32]), allowing whole chains to be generated.
+	#[cfg(dnssec_prover_verif)]
+	res.push(DS {
+		name: ".".try_into().unwrap(), key_tag: 29276, alg: 15, digest_type: 2,
+		digest: hex_lit::hex!("a1b890b03823acd0d1efd2e90e428814d228d996e65d77001e557810cdd19fb4").to_vec(),
+	});
 	res
 }
 
-- 
2.43.0


From 9c9e10907da57d45e6934385a3a27f3bd1f1b06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 02/34] fix: Walk each zone at most once when verifying a
 stream

A root zone without any DS sets was verified forever, as was any zone which
(transitively) signs a DS set for itself, and zones which all sign DS sets for
all of their descendants were walked an exponential number of times.
---
 src/validation.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index 9cd47b2..ea97c22 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -359,10 +359,12 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 	let mut res = Vec::new();
 	let mut rrs_needing_non_existence_proofs = Vec::new();
 	let mut pending_ds_sets = Vec::with_capacity(1);
+	// Each zone is only walked once, even if it is (or its children are) delegated repeatedly.
+	let mut walked_zones: Vec<&str> = Vec::with_capacity(4);
 	let mut latest_inception = 0;
 	let mut earliest_expiry = u64::MAX;
 	let mut min_ttl = u32::MAX;
-	'next_zone: while zone == "." || !pending_ds_sets.is_empty() {
+	'next_zone: while walked_zones.is_empty() || !pending_ds_sets.is_empty() {
 		let next_ds_set;
 		if let Some((next_zone, ds_set)) = pending_ds_sets.pop() {
 			next_ds_set = Some(ds_set);
@@ -371,6 +373,7 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			debug_assert_eq!(zone, ".");
 			next_ds_set = None;
 		}
+		walked_zones.push(zone);
 
 		let dnskey_rrsigs = inp.iter()
 			.filter_map(|rr| if let RR::RRSig(sig) = rr { Some(sig) } else { None })
@@ -411,7 +414,9 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 				// RRSigs shouldn't cover child `DnsKey`s or other `RRSig`s
 				RRSig::TYPE|DnsKey::TYPE => return Err(ValidationError::Invalid),
 				DS::TYPE => {
-					if !pending_ds_sets.iter().any(|(pending_zone, _)| pending_zone == &rrsig.name.as_str()) {
+					if !walked_zones.contains(&rrsig.name.as_str()) &&
+						!pending_ds_sets.iter().any(|(pending_zone, _)| pending_zone == &rrsig.name.as_str())
+					{
 						pending_ds_sets.push((
 							&rrsig.name,
 							signed_records.filter_map(|rr|
-- 
2.43.0


From eec77b5a434a49a73b07eee74595a2802eb1178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 03/34] fix: Only let zones sign for names which are below them
 label-wise

A textual suffix check let "a.com." sign for records at "xa.com.".
---
 src/validation.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index ea97c22..d327a02 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -297,6 +297,12 @@ fn resolve_time(time: u32) -> u64 {
 	}
 }
 
+/// Checks whether `name` is at or (label-wise) below `zone`.
+fn is_in_zone(name: &str, zone: &str) -> bool {
+	zone == "." || name == zone ||
+		name.strip_suffix(zone).map(|prefix| prefix.ends_with('.')).unwrap_or(false)
+}
+
 fn nsec_ord(a: &str, b: &str) -> Ordering {
 	let mut a_label_iter = a.rsplit(".");
 	let mut b_label_iter = b.rsplit(".");
@@ -396,7 +402,7 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			.filter_map(|rr| if let RR::RRSig(sig) = rr { Some(sig) } else { None })
 			.filter(move |rrsig| rrsig.key_name.as_str() == zone && rrsig.ty != DnsKey::TYPE)
 		{
-			if !rrsig.name.ends_with(zone) { return Err(ValidationError::Invalid); }
+			if !is_in_zone(&rrsig.name, zone) { return Err(ValidationError::Invalid); }
 			let signed_records = inp.iter()
 				.filter(|rr| rr.name() == &rrsig.name && rr.ty() == rrsig.ty);
 			match verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect()) {
-- 
2.43.0


From 32ee2fef70af68ca0c778695b33abff445d34e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 04/34] fix: Require proof that the next closer name does not
 exist for wildcards

An NSEC/NSEC3 record at exactly the next closer name (listing the type in
question or not), or an NSEC running through it to a name below it, shows that
the name exists, and thus that the wildcard must not have been used.
---
 src/validation.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index d327a02..d963337 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -461,17 +461,18 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 
 	// First sort the proofs we're looking for so that the retains below avoid shifting.
 	rrs_needing_non_existence_proofs.sort_unstable_by(nsec_ord_extra);
-	'proof_search_loop: while let Some((name, zone, ty)) = rrs_needing_non_existence_proofs.pop() {
+	'proof_search_loop: while let Some((name, zone, _)) = rrs_needing_non_existence_proofs.pop() {
 		let nsec_search = res.iter()
 			.filter_map(|rr| if let RR::NSec(nsec) = rr { Some(nsec) } else { None })
 			.filter(|nsec| nsec.name.ends_with(zone.as_str()));
 		for nsec in nsec_search {
-			let name_matches = nsec.name.as_str() == name;
-			let name_contained = nsec_ord(&nsec.name,  &name) != Ordering::Greater &&
-				nsec_ord(&nsec.next_name, name) == Ordering::Greater;
-			if (name_matches && !nsec.types.contains_type(ty)) || name_contained {
-				rrs_needing_non_existence_proofs
-					.retain(|(n, _, t)| *n != name || (name_matches && nsec.types.contains_type(*t)));
+			// The next closer name itself must not exist, so an NSEC at that name (whatever types
+			// it lists), or one showing that there are names below it, does not suffice.
+			let name_contained = nsec_ord(&nsec.name,  &name) == Ordering::Less &&
+				nsec_ord(&nsec.next_name, name) == Ordering::Greater &&
+				!is_in_zone(&nsec.next_name, name);
+			if name_contained {
+				rrs_needing_non_existence_proofs.retain(|(n, _, _)| *n != name);
 				continue 'proof_search_loop;
 			}
 		}
@@ -530,12 +531,10 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			} else { continue };
 			if start_hash.len() != 20 || nsec3.next_name_hash.len() != 20 { continue; }
 
-			let hash_matches = &start_hash[..] == name_hash.as_ref();
 			let hash_contained =
-				&start_hash[..] <= name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();
-			if (hash_matches && !nsec3.types.contains_type(ty)) || hash_contained {
-				rrs_needing_non_existence_proofs
-					.retain(|(n, _, t)| *n != name || (hash_matches && nsec3.types.contains_type(*t)));
+				&start_hash[..] < name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();
+			if hash_contained {
+				rrs_needing_non_existence_proofs.retain(|(n, _, _)| *n != name);
 				continue 'proof_search_loop;
 			}
 		}
-- 
2.43.0


From bf1df170e102e5f31f574fb392a4062279db379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 05/34] fix: Only accept non-existence proofs from the zone
 using the wildcard

Any zone whose name ends in the name of the zone using the wildcard, e.g. a
malicious child zone, could provide the NSEC/NSEC3 records.
---
 src/validation.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index d963337..193e061 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -364,6 +364,7 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 	let mut zone = ".";
 	let mut res = Vec::new();
 	let mut rrs_needing_non_existence_proofs = Vec::new();
+	let mut non_existence_rrs = Vec::new();
 	let mut pending_ds_sets = Vec::with_capacity(1);
 	// Each zone is only walked once, even if it is (or its children are) delegated repeatedly.
 	let mut walked_zones: Vec<&str> = Vec::with_capacity(4);
@@ -450,6 +451,9 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 					}
 					for record in signed_records {
 						if !res.contains(&record) { res.push(record); }
+						if rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE {
+							non_existence_rrs.push((record, &rrsig.key_name));
+						}
 					}
 				},
 			}
@@ -462,9 +466,12 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 	// First sort the proofs we're looking for so that the retains below avoid shifting.
 	rrs_needing_non_existence_proofs.sort_unstable_by(nsec_ord_extra);
 	'proof_search_loop: while let Some((name, zone, _)) = rrs_needing_non_existence_proofs.pop() {
-		let nsec_search = res.iter()
-			.filter_map(|rr| if let RR::NSec(nsec) = rr { Some(nsec) } else { None })
-			.filter(|nsec| nsec.name.ends_with(zone.as_str()));
+		// Only the zone which signed the wildcard can tell us what does not exist in it.
+		let zone_rrs = non_existence_rrs.iter()
+			.filter(|(_, signing_zone)| *signing_zone == zone)
+			.map(|(rr, _)| *rr);
+		let nsec_search = zone_rrs.clone()
+			.filter_map(|rr| if let RR::NSec(nsec) = rr { Some(nsec) } else { None });
 		for nsec in nsec_search {
 			// The next closer name itself must not exist, so an NSEC at that name (whatever types
 			// it lists), or one showing that there are names below it, does not suffice.
@@ -472,13 +479,12 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 				nsec_ord(&nsec.next_name, name) == Ordering::Greater &&
 				!is_in_zone(&nsec.next_name, name);
 			if name_contained {
-				rrs_needing_non_existence_proofs.retain(|(n, _, _)| *n != name);
+				rrs_needing_non_existence_proofs.retain(|(n, z, _)| *n != name || *z != zone);
 				continue 'proof_search_loop;
 			}
 		}
-		let nsec3_search = res.iter()
-			.filter_map(|rr| if let RR::NSec3(nsec3) = rr { Some(nsec3) } else { None })
-			.filter(|nsec3| nsec3.name.ends_with(zone.as_str()));
+		let nsec3_search = zone_rrs
+			.filter_map(|rr| if let RR::NSec3(nsec3) = rr { Some(nsec3) } else { None });
 
 		// Because we will only ever have two entries, a Vec is simpler than a map here.
 		let mut nsec3params_to_name_hash = Vec::new();
@@ -534,7 +540,7 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			let hash_contained =
 				&start_hash[..] < name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();
 			if hash_contained {
-				rrs_needing_non_existence_proofs.retain(|(n, _, _)| *n != name);
+				rrs_needing_non_existence_proofs.retain(|(n, z, _)| *n != name || *z != zone);
 				continue 'proof_search_loop;
 			}
 		}
-- 
2.43.0


From b1c4a256f78a9a8286ec5e44ab020d3ebaeda310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 06/34] fix: Refuse delegations synthesised from wildcards

A DS set signed as a wildcard was used for any name without any proof that the
name itself does not exist.
---
 src/validation.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/validation.rs b/src/validation.rs
index 193e061..4785ff3 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -421,6 +421,8 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 				// RRSigs shouldn't cover child `DnsKey`s or other `RRSig`s
 				RRSig::TYPE|DnsKey::TYPE => return Err(ValidationError::Invalid),
 				DS::TYPE => {
+					// Delegations are never synthesised from wildcards
+					if rrsig.labels != rrsig.name.labels() { return Err(ValidationError::Invalid); }
 					if !walked_zones.contains(&rrsig.name.as_str()) &&
 						!pending_ds_sets.iter().any(|(pending_zone, _)| pending_zone == &rrsig.name.as_str())
 					{
-- 
2.43.0


From a335d3a1011c202c340ddbfab6c81ac636c45a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 07/34] fix: Ignore DNSKEY signatures by keys without a
 matching DS

Many zones sign their DNSKEY set with their ZSK as well as the KSK. Such a proof
was rejected if the signature of the former came first.
---
 src/validation.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/validation.rs b/src/validation.rs
index 4785ff3..cf5a7c0 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -228,6 +228,13 @@ where RI: IntoIterator<IntoIter = R>, R: Iterator<Item = &'r RRSig>,
 
 	let mut found_unsupported_alg = false;
 	for sig in sigs {
+		// The DNSKEY set may also be signed with keys which the DS set does not vouch for (e.g. the
+		// ZSK), which tells us nothing.
+		if !validated_dnskeys.iter().any(|key| key.key_tag() == sig.key_tag && key.alg == sig.alg &&
+			key.protocol == 3 && key.flags & 0b1_0000_0000 != 0)
+		{
+			continue;
+		}
 		match verify_rrsig(sig, validated_dnskeys.iter().map(|k| *k), records.clone()) {
 			Ok(()) => return Ok(sig),
 			Err(ValidationError::UnsupportedAlgorithm) => {
-- 
2.43.0


From 0d32fcc62abe0b9508731d9eb614d5978331ca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 08/34] fix: Put RRsets in canonical form before checking their
 signature

NS records were ordered by the text of their names rather than their wire form,
and repeated records were not removed.
---
 src/validation.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index cf5a7c0..01114a0 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -99,7 +99,13 @@ where Keys: IntoIterator<Item = &'a DnsKey> {
 			signed_data.extend_from_slice(&sig.key_tag.to_be_bytes());
 			write_name(&mut signed_data, &sig.key_name);
 
-			records.sort_unstable();
+			// RFC 4034 section 6.3: in the order of the canonical data, without duplicates.
+			records.sort_by_cached_key(|record| {
+				let mut data = Vec::new();
+				record.write_u16_len_prefixed_data(&mut data);
+				data.split_off(2)
+			});
+			records.dedup();
 
 			for record in records.iter() {
 				let record_labels = record.name().labels() as usize;
-- 
2.43.0


From f6ba2446781a231ab734dd5ceadb869554a17dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 09/34] fix: Use the same order for Txt's Ord and PartialOrd

Ord was derived and disagreed with the hand-written PartialOrd, so that which of
them sorting used depended on the compiler.
---
 src/rr.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index fbe8f65..cb4e82c 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -243,7 +243,7 @@ impl Record for RR {
 	}
 }
 
-#[derive(Debug, Clone, PartialEq, Eq, Ord)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 /// A text resource record, containing arbitrary text data
 pub struct Txt {
 	/// The name this record is at.
@@ -257,8 +257,11 @@ pub struct Txt {
 /// The wire type for TXT records
 pub const TXT_TYPE: u16 = 16;
 impl PartialOrd for Txt {
-	fn partial_cmp(&self, o: &Txt) -> Option<Ordering> {
-		Some(self.name.cmp(&o.name)
+	fn partial_cmp(&self, o: &Txt) -> Option<Ordering> { Some(self.cmp(o)) }
+}
+impl Ord for Txt {
+	fn cmp(&self, o: &Txt) -> Ordering {
+		self.name.cmp(&o.name)
 			.then_with(|| {
 				// Compare in wire encoding form, i.e. compare in 255-byte chunks
 				for i in 1..(self.data.len() / 255) + 2 {
@@ -270,7 +273,7 @@ impl PartialOrd for Txt {
 					if !slice_cmp.is_eq() { return slice_cmp; }
 				}
 				Ordering::Equal
-			}))
+			})
 	}
 }
 impl StaticRecord for Txt {
-- 
2.43.0


From 8cdb91f2d6e28c1a28589616db4cda7427aa1e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 10/34] fix: Write the right length for empty Txt records

They were written with a zero length but one byte of data, corrupting any stream
they were a part of.
---
 src/rr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rr.rs b/src/rr.rs
index cb4e82c..f6303fb 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -299,7 +299,8 @@ impl StaticRecord for Txt {
 		Ok(Txt { name, data: parsed_data })
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
-		let len = (self.data.len() + (self.data.len() + 254) / 255) as u16;
+		// An empty text still takes one (empty) character string
+		let len = (self.data.len() + cmp::max(1, (self.data.len() + 254) / 255)) as u16;
 		out.extend_from_slice(&len.to_be_bytes());
 
 		let mut data_write = &self.data[..];
-- 
2.43.0


From 88f4e46c86cae674a51955b81f9708d8fd561fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 11/34] fix: Refuse names with empty labels

---
 src/rr.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rr.rs b/src/rr.rs
index f6303fb..9a5920c 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -61,6 +61,7 @@ impl TryFrom<String> for Name {
 		if *s.as_bytes().last().unwrap_or(&0) != b"."[0] { return Err(()); }
 		if s.len() > 255 { return Err(()); }
 		if s.chars().any(|c| !c.is_ascii_graphic() || c == '"') { return Err(()); }
+		if s != "." && (s.starts_with(".") || s.contains("..")) { return Err(()); }
 		for label in s.split(".") {
 			if label.len() > 63 { return Err(()); }
 		}
-- 
2.43.0


From 681449eb043d4585db425bcdef3503ea2cba2e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 12/34] fix: Refuse wire labels containing a dot

They were read as several labels, i.e. as a different name.
---
 src/ser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ser.rs b/src/ser.rs
index dfd8993..0809743 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -87,6 +87,8 @@ fn do_read_wire_packet_labels(inp: &mut &[u8], wire_packet: &[u8], name: &mut St
 			break;
 		}
 		if inp.len() <= len { return Err(()); }
+		// A dot within a label cannot be told from a label separator in a [`Name`].
+		if inp[..len].contains(&b'.') { return Err(()); }
 		*name += core::str::from_utf8(&inp[..len]).map_err(|_| ())?;
 		*name += ".";
 		*inp = &inp[len..];
-- 
2.43.0


From e375297aa5ffc1ae468a92545fca25e3aa0e4a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 13/34] fix: Refuse trailing data in CNAME, DNAME and NS
 records

It is untrusted input, but was only checked with a debug assertion.
---
 src/rr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index 9a5920c..952d1df 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -387,7 +387,7 @@ impl StaticRecord for CName {
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = CName { name, canonical_name: read_wire_packet_name(&mut data, wire_packet)? };
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
@@ -418,7 +418,7 @@ impl StaticRecord for DName {
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = DName { name, delegation_name: read_wire_packet_name(&mut data, wire_packet)? };
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
@@ -863,7 +863,7 @@ impl StaticRecord for NS {
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = NS { name, name_server: read_wire_packet_name(&mut data, wire_packet)? };
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
-- 
2.43.0


From 4b0400158518561ff6b211999636c79bffcd0cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 14/34] fix: Refuse NSEC type bitmap blocks of more than 32
 bytes

They spilled into the next block, or panicked for the last block.
---
 src/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ser.rs b/src/ser.rs
index 0809743..45626f3 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -66,7 +66,7 @@ pub(crate) fn read_nsec_types_bitmap(inp: &mut &[u8]) -> Result<[u8; 8192], ()>
 		let block = *inp.get(0).ok_or(())?;
 		let len = *inp.get(1).ok_or(())?;
 		*inp = &inp[2..];
-		if inp.len() < len as usize { return Err(()); }
+		if len > 32 || inp.len() < len as usize { return Err(()); }
 		res[block as usize * 32..block as usize * 32 + len as usize]
 			.copy_from_slice(&inp[..len as usize]);
 		*inp = &inp[len as usize..];
-- 
2.43.0


From 61c1d0d47a641caf77031fddde9da27a759a9a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 15/34] fix: Refuse RRSIGs which are too long once decompressed

Writing them overflowed the length of the record.
---
 src/rr.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index 952d1df..4dc153d 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -606,14 +606,17 @@ impl StaticRecord for RRSig {
 		out
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
-		Ok(RRSig {
+		let res = RRSig {
 			name, ty: read_u16(&mut data)?, alg: read_u8(&mut data)?,
 			labels: read_u8(&mut data)?, orig_ttl: read_u32(&mut data)?,
 			expiration: read_u32(&mut data)?, inception: read_u32(&mut data)?,
 			key_tag: read_u16(&mut data)?,
 			key_name: read_wire_packet_name(&mut data, wire_packet)?,
 			signature: data.to_vec(),
-		})
+		};
+		// If the key name was compressed we may not be able to write the full record.
+		if 18 + name_len(&res.key_name) as usize + res.signature.len() > u16::MAX as usize { return Err(()); }
+		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
 		let len = 2 + 1 + 1 + 4*3 + 2 + name_len(&self.key_name) + self.signature.len() as u16;
-- 
2.43.0


From 0f5d87820182d0b3e547358e3b40a595a17cb857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 16/34] fix: Treat signatures over no records as invalid

The label count of such a signature was never checked, leading to an overflow.
---
 src/validation.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/validation.rs b/src/validation.rs
index 01114a0..24176d9 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -78,6 +78,7 @@ pub(crate) fn bytes_to_rsa_pk<'a>(pubkey: &'a [u8])
 fn verify_rrsig<'a, RR: Record, Keys>(sig: &RRSig, dnskeys: Keys, mut records: Vec<&RR>)
 -> Result<(), ValidationError>
 where Keys: IntoIterator<Item = &'a DnsKey> {
+	if records.is_empty() { return Err(ValidationError::Invalid); }
 	for record in records.iter() {
 		if sig.ty != record.ty() { return Err(ValidationError::Invalid); }
 	}
-- 
2.43.0


From 01a5dd1c5ba9a721df0f5b92af1deed88f764042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 17/34] fix: Don't panic when extending a QueryBuf past
 u16::MAX bytes

---
 src/query.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/query.rs b/src/query.rs
index 1e02e2b..2c75152 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -48,7 +48,7 @@ impl QueryBuf {
 	/// If the total length of this buffer exceeds [`u16::MAX`] after appending, the buffer's state
 	/// is undefined, however pushing data beyond [`u16::MAX`] will not panic.
 	pub fn extend_from_slice(&mut self, sl: &[u8]) {
-		let new_len = self.len.saturating_add(sl.len() as u16);
+		let new_len = self.len.saturating_add(cmp::min(sl.len(), u16::MAX as usize) as u16);
 		let was_heap = self.len > STACK_BUF_LIMIT;
 		let is_heap = new_len > STACK_BUF_LIMIT;
 		if was_heap != is_heap {
@@ -61,7 +61,8 @@ impl QueryBuf {
 		} else {
 			&mut self.buf[self.len as usize..new_len as usize]
 		};
-		target.copy_from_slice(sl);
+		let target_len = target.len();
+		target.copy_from_slice(&sl[..target_len]);
 		self.len = new_len;
 	}
 	/// Converts this query into its bytes on the heap
-- 
2.43.0


From 3276ff5e7fef15fa5e7fc167cb45e3bc2d7fcfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 18/34] fix: Compare QueryBufs by their contents

What was left in the stack buffer after moving to the heap was compared too.
---
 src/query.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index 2c75152..d67889e 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -27,7 +27,7 @@ const STACK_BUF_LIMIT: u16 = 32;
 const STACK_BUF_LIMIT: u16 = 2048;
 
 /// A buffer for storing queries and responses.
-#[derive(Clone, PartialEq, Eq)]
+#[derive(Clone)]
 pub struct QueryBuf {
 	buf: [u8; STACK_BUF_LIMIT as usize],
 	heap_buf: Vec<u8>,
@@ -74,6 +74,10 @@ impl QueryBuf {
 		}
 	}
 }
+impl PartialEq for QueryBuf {
+	fn eq(&self, o: &QueryBuf) -> bool { **self == **o }
+}
+impl Eq for QueryBuf {}
 impl ops::Deref for QueryBuf {
 	type Target = [u8];
 	fn deref(&self) -> &[u8] {
-- 
2.43.0


From 18fa4175b337014f003808276a117ca781419a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 19/34] fix: Check all four bits of a response's RCODE

---
 src/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index d67889e..75c8f9b 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -133,7 +133,7 @@ fn handle_response(resp: &[u8], proof: &mut Vec<u8>, rrsig_key_names: &mut Vec<N
 	if flags & 0b1000_0000_0000_0000 == 0 {
 		return Err(());
 	}
-	if flags & 0b0111_1010_0000_0111 != 0 {
+	if flags & 0b0111_1010_0000_1111 != 0 {
 		return Err(());
 	}
 	if flags & 0b10_0000 == 0 {
-- 
2.43.0


From fa31f6cae3327bacbf1b72afe77557ae00196794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 20/34] fix: Don't keep parts of a refused response in the
 proof

---
 src/query.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index 75c8f9b..46afaa0 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -255,7 +255,9 @@ impl ProofBuilder {
 		if self.pending_queries == 0 { return Err(()); }
 
 		let mut rrsig_key_names = Vec::new();
-		let min_ttl = handle_response(&resp, &mut self.proof, &mut rrsig_key_names)?;
+		let proof_len = self.proof.len();
+		let min_ttl = handle_response(&resp, &mut self.proof, &mut rrsig_key_names)
+			.map_err(|()| self.proof.truncate(proof_len))?;
 		self.min_ttl = cmp::min(self.min_ttl, min_ttl);
 		self.pending_queries -= 1;
 
-- 
2.43.0


From 1fe445a14a1ef63aed5e061e067b44c931b6fcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 21/34] fix: Give up on CNAME and DNAME loops in resolve_name

---
 src/validation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 24176d9..baf1352 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -584,7 +584,8 @@ impl<'a> VerifiedRRStream<'a> {
 	pub fn resolve_name<'b>(&self, name_param: &'b Name) -> Vec<&'a RR> where 'a: 'b {
 		let mut dname_name;
 		let mut name = name_param;
-		loop {
+		// Aliases may form a loop, or go on for very long, so give up eventually.
+		for _ in 0..self.verified_rrs.len() + 255 {
 			let mut cname_search = self.verified_rrs.iter()
 				.filter(|rr| rr.name() == name)
 				.filter_map(|rr| if let RR::CName(cn) = rr { Some(cn) } else { None });
@@ -611,6 +612,7 @@ impl<'a> VerifiedRRStream<'a> {
 
 			return self.verified_rrs.iter().filter(|rr| rr.name() == name).map(|rr| *rr).collect();
 		}
+		Vec::new()
 	}
 }
 
-- 
2.43.0


From 3c6dd5e02bb38d4281cb926a47c6bb0ba7f0e29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 22/34] fix: Apply DNAMEs to names strictly and label-wise
 below them only

They were applied to their own name and to names merely sharing their text as a
suffix, and ones at or to the root led to invalid names.
---
 src/validation.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index baf1352..1249fd8 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -595,11 +595,13 @@ impl<'a> VerifiedRRStream<'a> {
 			}
 
 			let mut dname_search = self.verified_rrs.iter()
-				.filter(|rr| name.ends_with(&**rr.name()))
+				.filter(|rr| rr.name() != name && is_in_zone(name, rr.name()))
 				.filter_map(|rr| if let RR::DName(dn) = rr { Some(dn) } else { None });
 			if let Some(dname) = dname_search.next() {
-				let prefix = name.strip_suffix(&*dname.name).expect("We just filtered for this");
-				let resolved_name = prefix.to_owned() + &dname.delegation_name;
+				let owner = if dname.name.as_str() == "." { "" } else { &*dname.name };
+				let target = if dname.delegation_name.as_str() == "." { "" } else { &*dname.delegation_name };
+				let prefix = name.strip_suffix(owner).expect("We just filtered for this");
+				let resolved_name = prefix.to_owned() + target;
 				dname_name = if let Ok(name) = resolved_name.try_into() {
 					name
 				} else {
-- 
2.43.0


From 2e8f6b55d54569d60f9a7ee2bdf8337dedfa61e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 23/34] fix: Add 2^32 to wrapped signature times

---
 src/validation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 1249fd8..4f80ade 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -305,7 +305,7 @@ fn resolve_time(time: u32) -> u64 {
 	// any timestamps before then are actually past 2106 instead.
 	// We ignore leap years for simplicity.
 	if time < 60*60*24*365*27 {
-		(time as u64) + (u32::MAX as u64)
+		(time as u64) + (u32::MAX as u64) + 1
 	} else {
 		time.into()
 	}
-- 
2.43.0


From 5fb77f3d05b5694e54ac00b60181e2743e55cdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 24/34] fix: Report DS sets with SHA-384 digests only as
 unsupported

---
 src/validation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 4f80ade..f2d9b4f 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -199,7 +199,7 @@ where RI: IntoIterator<IntoIter = R>, R: Iterator<Item = &'r RRSig>,
 	let mut had_ds = false;
 	for ds in dses.clone() {
 		had_ds = true;
-		if ds.digest_type == 1 || ds.digest_type == 2 || ds.digest_type == 4 {
+		if ds.digest_type == 1 || ds.digest_type == 2 {
 			had_known_digest_type = true;
 			break;
 		}
-- 
2.43.0


From 32ffb6f9179cb4702aa81986935c31ccce523e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:26 +0000
Subject: [PATCH 25/34] fix: Don't require non-existence proofs for a
 wildcard's own records

---
 src/validation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index f2d9b4f..6a21970 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -463,7 +463,10 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 						// a.b.c.
 						let proof_name = rrsig.name.trailing_n_labels(rrsig.labels + 1)
 							.ok_or(ValidationError::Invalid)?;
-						rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name, rrsig.ty));
+						// If the RRs are those at the wildcard itself nothing was synthesised.
+						if proof_name != rrsig.name.as_str() || !proof_name.starts_with("*.") {
+							rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name, rrsig.ty));
+						}
 					}
 					for record in signed_records {
 						if !res.contains(&record) { res.push(record); }
-- 
2.43.0


From 80bf15355587efe82dca5ead80572d356db6b869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:26 +0000
Subject: [PATCH 26/34] fix: Write valid JSON, with the right type, for RRSIGs

---
 src/rr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rr.rs b/src/rr.rs
index 4dc153d..eb54a78 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -595,7 +595,7 @@ impl StaticRecord for RRSig {
 	fn json(&self) -> String {
 		let mut out = String::with_capacity(256 + self.signature.len()*2);
 		write!(&mut out,
-			"{{\"type\":\"ds\",\"name\":\"{}\",\"signed_record_type\":{},\"alg\":{},\"signed_labels\":{},\"orig_ttl\":{},\"expiration\"{},\"inception\":{},\"key_tag\":{},\"key_name\":\"{}\",\"signature\":\"",
+			"{{\"type\":\"rrsig\",\"name\":\"{}\",\"signed_record_type\":{},\"alg\":{},\"signed_labels\":{},\"orig_ttl\":{},\"expiration\":{},\"inception\":{},\"key_tag\":{},\"key_name\":\"{}\",\"signature\":\"",
 			self.name.0, self.ty, self.alg, self.labels, self.orig_ttl, self.expiration, self.inception, self.key_tag, self.key_name.0
 		).expect("Write to a String shouldn't fail");
 		for c in self.signature.iter() {
-- 
2.43.0


From 18f1fcecd8498b031b1114213d687267dda60c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:32 +0000
Subject: [PATCH 27/34] fix: Escape backslashes in names in JSON

---
 src/rr.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index eb54a78..cf5caf3 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -23,6 +23,8 @@ pub struct Name(String);
 impl Name {
 	/// Gets the underlying human-readable domain name
 	pub fn as_str(&self) -> &str { &self.0 }
+	/// Gets this name with the one character which needs it in a JSON string (the \) escaped.
+	fn json(&self) -> String { self.0.replace('\\', "\\\\") }
 	/// Gets the number of labels in this name
 	pub fn labels(&self) -> u8 {
 		if self.as_str() == "." {
@@ -283,10 +285,10 @@ impl StaticRecord for Txt {
 	fn json(&self) -> String {
 		if let Ok(s) = core::str::from_utf8(&self.data) {
 			if s.chars().all(|c| !c.is_control() && c != '"' && c != '\\') {
-				return format!("{{\"type\":\"txt\",\"name\":\"{}\",\"contents\":\"{}\"}}", self.name.0, s);
+				return format!("{{\"type\":\"txt\",\"name\":\"{}\",\"contents\":\"{}\"}}", self.name.json(), s);
 			}
 		}
-		format!("{{\"type\":\"txt\",\"name\":\"{}\",\"contents\":{:?}}}", self.name.0, &self.data[..])
+		format!("{{\"type\":\"txt\",\"name\":\"{}\",\"contents\":{:?}}}", self.name.json(), &self.data[..])
 	}
 	fn read_from_data(name: Name, mut data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {
 		let mut parsed_data = Vec::with_capacity(data.len().saturating_sub(1));
@@ -345,7 +347,7 @@ impl StaticRecord for TLSA {
 		let mut out = String::with_capacity(128+self.data.len()*2);
 		write!(&mut out,
 			"{{\"type\":\"tlsa\",\"name\":\"{}\",\"usage\":{},\"selector\":{},\"data_ty\":{},\"data\":\"",
-			self.name.0, self.cert_usage, self.selector, self.data_ty
+			self.name.json(), self.cert_usage, self.selector, self.data_ty
 		).expect("Write to a String shouldn't fail");
 		for c in self.data.iter() {
 			write!(&mut out, "{:02X}", c)
@@ -383,7 +385,7 @@ impl StaticRecord for CName {
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
 		format!("{{\"type\":\"cname\",\"name\":\"{}\",\"canonical_name\":\"{}\"}}",
-			self.name.0, self.canonical_name.0)
+			self.name.json(), self.canonical_name.json())
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = CName { name, canonical_name: read_wire_packet_name(&mut data, wire_packet)? };
@@ -414,7 +416,7 @@ impl StaticRecord for DName {
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
 		format!("{{\"type\":\"dname\",\"name\":\"{}\",\"delegation_name\":\"{}\"}}",
-			self.name.0, self.delegation_name.0)
+			self.name.json(), self.delegation_name.json())
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = DName { name, delegation_name: read_wire_packet_name(&mut data, wire_packet)? };
@@ -450,7 +452,7 @@ impl StaticRecord for DnsKey {
 		let mut out = String::with_capacity(128+self.pubkey.len()*2);
 		write!(&mut out,
 			"{{\"type\":\"dnskey\",\"name\":\"{}\",\"flags\":{},\"protocol\":{},\"alg\":{},\"pubkey\":\"",
-			self.name.0, self.flags, self.protocol, self.alg
+			self.name.json(), self.flags, self.protocol, self.alg
 		).expect("Write to a String shouldn't fail");
 		for c in self.pubkey.iter() {
 			write!(&mut out, "{:02X}", c)
@@ -521,7 +523,7 @@ impl StaticRecord for DS {
 		let mut out = String::with_capacity(128+self.digest.len()*2);
 		write!(&mut out,
 			"{{\"type\":\"ds\",\"name\":\"{}\",\"key_tag\":{},\"alg\":{},\"digest_type\":{},\"digest\":\"",
-			self.name.0, self.key_tag, self.alg, self.digest_type
+			self.name.json(), self.key_tag, self.alg, self.digest_type
 		).expect("Write to a String shouldn't fail");
 		for c in self.digest.iter() {
 			write!(&mut out, "{:02X}", c)
@@ -596,7 +598,7 @@ impl StaticRecord for RRSig {
 		let mut out = String::with_capacity(256 + self.signature.len()*2);
 		write!(&mut out,
 			"{{\"type\":\"rrsig\",\"name\":\"{}\",\"signed_record_type\":{},\"alg\":{},\"signed_labels\":{},\"orig_ttl\":{},\"expiration\":{},\"inception\":{},\"key_tag\":{},\"key_name\":\"{}\",\"signature\":\"",
-			self.name.0, self.ty, self.alg, self.labels, self.orig_ttl, self.expiration, self.inception, self.key_tag, self.key_name.0
+			self.name.json(), self.ty, self.alg, self.labels, self.orig_ttl, self.expiration, self.inception, self.key_tag, self.key_name.json()
 		).expect("Write to a String shouldn't fail");
 		for c in self.signature.iter() {
 			write!(&mut out, "{:02X}", c)
@@ -702,7 +704,7 @@ impl StaticRecord for NSec {
 		let mut out = String::with_capacity(256 + self.next_name.len());
 		write!(&mut out,
 			"{{\"type\":\"nsec\",\"name\":\"{}\",\"next_name\":\"{}\",\"types\":",
-			self.name.0, self.next_name.0,
+			self.name.json(), self.next_name.json(),
 		).expect("Write to a String shouldn't fail");
 		self.types.write_json(&mut out);
 		out += "}";
@@ -758,7 +760,7 @@ impl StaticRecord for NSec3 {
 		let mut out = String::with_capacity(256);
 		write!(&mut out,
 			"{{\"type\":\"nsec3\",\"name\":\"{}\",\"hash_algo\":{},\"flags\":{},\"hash_iterations\":{},\"salt\":{:?},\"next_name_hash\":{:?},\"types\":",
-			self.name.0, self.hash_algo, self.flags, self.hash_iterations, &self.salt[..], &self.next_name_hash[..]
+			self.name.json(), self.hash_algo, self.flags, self.hash_iterations, &self.salt[..], &self.next_name_hash[..]
 		).expect("Write to a String shouldn't fail");
 		self.types.write_json(&mut out);
 		out += "}";
@@ -803,7 +805,7 @@ impl StaticRecord for A {
 	const TYPE: u16 = A_TYPE;
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
-		format!("{{\"type\":\"a\",\"name\":\"{}\",\"address\":{:?}}}", self.name.0, self.address)
+		format!("{{\"type\":\"a\",\"name\":\"{}\",\"address\":{:?}}}", self.name.json(), self.address)
 	}
 	fn read_from_data(name: Name, data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {
 		if data.len() != 4 { return Err(()); }
@@ -831,7 +833,7 @@ impl StaticRecord for AAAA {
 	const TYPE: u16 = AAAA_TYPE;
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
-		format!("{{\"type\":\"aaaa\",\"name\":\"{}\",\"address\":{:?}}}", self.name.0, self.address)
+		format!("{{\"type\":\"aaaa\",\"name\":\"{}\",\"address\":{:?}}}", self.name.json(), self.address)
 	}
 	fn read_from_data(name: Name, data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {
 		if data.len() != 16 { return Err(()); }
@@ -862,7 +864,7 @@ impl StaticRecord for NS {
 	const TYPE: u16 = 2;
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
-		format!("{{\"type\":\"ns\",\"name\":\"{}\",\"ns\":\"{}\"}}", self.name.0, self.name_server.0)
+		format!("{{\"type\":\"ns\",\"name\":\"{}\",\"ns\":\"{}\"}}", self.name.json(), self.name_server.json())
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = NS { name, name_server: read_wire_packet_name(&mut data, wire_packet)? };
-- 
2.43.0


From de4777fe0043f2724bc66c0192e55bd96dc7b1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:00 +0000
Subject: [PATCH 28/34] fix: Keep serving if accepting one connection fails

---
 src/http.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index 51a6c20..033d513 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -46,7 +46,11 @@ mod imp {
 
 	pub(super) async fn run_server(listener: TcpListener, resolver_sockaddr: SocketAddr) {
 		loop {
-			let (mut socket, _) = listener.accept().await.expect("Failed to accept new TCP connection");
+			let mut socket = match listener.accept().await {
+				Ok((socket, _)) => socket,
+				// The client may be gone already, or we may be out of sockets for now.
+				Err(_) => { tokio::task::yield_now().await; continue; },
+			};
 			tokio::spawn(async move {
 				let mut response = ("400 Bad Request", "Bad Request");
 				'ret_err: loop { // goto label
-- 
2.43.0


From d2f21d68ec2f0e23e53be420f59295bb97e4295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:00 +0000
Subject: [PATCH 29/34] fix: Accept responses of exactly u16::MAX bytes in WASM
 builders

---
 wasmpack/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasmpack/src/lib.rs b/wasmpack/src/lib.rs
index 57fe0a0..e949a50 100644
--- a/wasmpack/src/lib.rs
+++ b/wasmpack/src/lib.rs
@@ -40,7 +40,7 @@ pub fn init_proof_builder(mut name: String, ty: u16) -> Option<WASMProofBuilder>
 /// After calling this, [`get_next_query`] should be called until pending queries are exhausted and
 /// no more pending queries exist, at which point [`get_unverified_proof`] should be called.
 pub fn process_query_response(proof_builder: &mut WASMProofBuilder, response: Vec<u8>) {
-	if response.len() < u16::MAX as usize {
+	if response.len() <= u16::MAX as usize {
 		let mut answer = QueryBuf::new_zeroed(response.len() as u16);
 		answer.copy_from_slice(&response);
 		if let Ok(queries) = proof_builder.0.process_response(&answer) {
-- 
2.43.0


From 123f99cddddd7d110eec48939af8d1252eb3dcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:46 +0000
Subject: [PATCH 30/34] Count signature checks and hashes under
 cfg(dnssec_prover_verif)

---
 src/crypto/hash.rs |  2 ++
 src/validation.rs  | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/crypto/hash.rs b/src/crypto/hash.rs
index 8b913de..e722f16 100644
--- a/src/crypto/hash.rs
+++ b/src/crypto/hash.rs
@@ -45,6 +45,8 @@ impl Hasher {
 	}
 
 	pub(crate) fn finish(self) -> HashResult {
+		#[cfg(dnssec_prover_verif)]
+		crate::validation::verif::HASHES.fetch_add(1, core::sync::atomic::Ordering::Relaxed);
 		match self {
 			Hasher::Sha1(hasher) => HashResult::Sha1(Sha1::from_engine(hasher)),
 			Hasher::Sha256(hasher) => HashResult::Sha256(Sha256::from_engine(hasher)),
diff --git a/src/validation.rs b/src/validation.rs
index 6a21970..901d7c9 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -132,6 +132,8 @@ where Keys: IntoIterator<Item = &'a DnsKey> {
 				record.write_u16_len_prefixed_data(&mut signed_data);
 			}
 
+			#[cfg(dnssec_prover_verif)]
+			crate::validation::verif::SIG_CHECKS.fetch_add(1, core::sync::atomic::Ordering::Relaxed);
 			let sig_validation = match sig.alg {
 				8|10 => {
 					let alg = if sig.alg == 8 {
@@ -166,6 +168,10 @@ where Keys: IntoIterator<Item = &'a DnsKey> {
 				},
 				_ => return Err(ValidationError::UnsupportedAlgorithm),
 			};
+			#[cfg(dnssec_prover_verif)]
+			crate::validation::verif::SIG_FAILURES.fetch_add(
+				sig_validation.is_err() as u64, core::sync::atomic::Ordering::Relaxed
+			);
 			#[cfg(fuzzing)] {
 				// When fuzzing, treat any signature starting with a 1 as valid, but only after
 				// parsing and checking signatures to give that code a chance to panic.
@@ -300,6 +306,18 @@ pub struct VerifiedRRStream<'a> {
 	pub max_cache_ttl: u32,
 }
 
+/// Counters of the work done by this module, in verification builds only.
+#[cfg(dnssec_prover_verif)]
+pub mod verif {
+	use core::sync::atomic::AtomicU64;
+	/// Signatures checked
+	pub static SIG_CHECKS: AtomicU64 = AtomicU64::new(0);
+	/// Signatures checked which turned out to be invalid
+	pub static SIG_FAILURES: AtomicU64 = AtomicU64::new(0);
+	/// Hashes finished
+	pub static HASHES: AtomicU64 = AtomicU64::new(0);
+}
+
 fn resolve_time(time: u32) -> u64 {
 	// RFC 2065 was published in January 1997, so we arbitrarily use that as a cutoff and assume
 	// any timestamps before then are actually past 2106 instead.
-- 
2.43.0


From d007a84f3a40d19d1ee122be8b4ddd2656d972a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:47 +0000
Subject: [PATCH 31/34] fix: Accept the last NSEC3 record of a zone as proof of
 non-existence

---
 src/validation.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index 901d7c9..7093b87 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -574,8 +574,15 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			} else { continue };
 			if start_hash.len() != 20 || nsec3.next_name_hash.len() != 20 { continue; }
 
-			let hash_contained =
-				&start_hash[..] < name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();
+			let after_start = &start_hash[..] < name_hash.as_ref();
+			let before_next = &nsec3.next_name_hash[..] > name_hash.as_ref();
+			let hash_contained = if start_hash[..] < nsec3.next_name_hash[..] {
+				after_start && before_next
+			} else {
+				// The last NSEC3 in a zone points back to the first one. If it is the only one,
+				// there is only one name, which doesn't match itself.
+				after_start || before_next
+			};
 			if hash_contained {
 				rrs_needing_non_existence_proofs.retain(|(n, z, _)| *n != name || *z != zone);
 				continue 'proof_search_loop;
-- 
2.43.0


From 4a0805a905b78a46525d3a239da547708c543b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:10 +0000
Subject: [PATCH 32/34] fix: ignore the bytes of HTTP headers, which may or may
 not have been read yet

Whether the request line was accepted depended on whether headers which
are not UTF-8, or a character cut by the end of the buffer, came in the
same read as the request line.
---
 src/http.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/http.rs b/src/http.rs
index 033d513..9ae9e4a 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -56,6 +56,7 @@ mod imp {
 				'ret_err: loop { // goto label
 					let mut buf = [0; 4096];
 					let mut buf_pos = 0;
+					let line_len;
 					'read_req: loop {
 						if buf_pos == buf.len() { response.1 = "Request Too Large"; break 'ret_err; }
 						let read_res = { socket.read(&mut buf[buf_pos..]).await };
@@ -63,25 +64,18 @@ mod imp {
 							Ok(0) => return,
 							Ok(len) => {
 								buf_pos += len;
-								for window in buf[..buf_pos].windows(2) {
-									if window == b"\r\n" { break 'read_req; }
+								if let Some(pos) = buf[..buf_pos].windows(2).position(|window| window == b"\r\n") {
+									line_len = pos;
+									break 'read_req;
 								}
 							}
 							Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {},
 							Err(_) => return,
 						}
 					}
+					// How much of the headers we've read depends on how they were fragmented, so ignore them.
 					let request;
-					if let Ok(s) = std::str::from_utf8(&buf[..buf_pos]) {
-						if let Some((r, _)) = s.split_once("\r\n") {
-							request = r;
-						} else {
-							debug_assert!(false);
-							break 'ret_err;
-						}
-					} else {
-						break 'ret_err;
-					}
+					if let Ok(r) = std::str::from_utf8(&buf[..line_len]) { request = r; } else { break 'ret_err; }
 
 					let mut parts = request.split(" ");
 					let (verb, path, http_vers);
-- 
2.43.0


From 0acd52be40c2260e3e109b55958d71bcf2be3286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:46 +0000
Subject: [PATCH 33/34] fix: do not lose HTTP responses by closing sockets with
 unread data

Dropping a socket while there is data to be read from it (headers which
came later than the request line, or a request larger than the buffer)
resets the connection, and whatever part of the response was not sent
yet, or not read yet by the client, is lost.
---
 src/http.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index 9ae9e4a..9a3201e 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -41,7 +41,7 @@ mod imp {
 
 	use std::net::SocketAddr;
 
-	use tokio::net::TcpListener;
+	use tokio::net::{TcpListener, TcpStream};
 	use tokio::io::{AsyncReadExt, AsyncWriteExt};
 
 	pub(super) async fn run_server(listener: TcpListener, resolver_sockaddr: SocketAddr) {
@@ -130,15 +130,27 @@ mod imp {
 						).as_bytes()
 					).await;
 					let _ = socket.write_all(&proof).await;
+					close(socket).await;
 					return;
 				}
 				let _ = socket.write_all(format!(
 					"HTTP/1.1 {}\r\nContent-Length: {}\r\nContent-Type: text/plain\r\nAccess-Control-Allow-Origin: *\r\n\r\n{}",
 					response.0, response.1.len(), response.1,
 				).as_bytes()).await;
+				close(socket).await;
 			});
 		}
 	}
+
+	/// Dropping a socket while there is something left to read from it resets the connection, losing
+	/// what the client did not get yet, so wait for the client to be done.
+	async fn close(mut socket: TcpStream) {
+		let _ = socket.shutdown().await;
+		let mut buf = [0; 4096];
+		while let Ok(len) = socket.read(&mut buf).await {
+			if len == 0 { break; }
+		}
+	}
 }
 
 #[cfg(all(feature = "tokio", feature = "validation", test))]
-- 
2.43.0


From 15407d3bd4ce49510ccd9b6a1eeaef71c5510d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:25 +0000
Subject: [PATCH 34/34] fix: Escape the failure's text in the DoH lookup's JSON
 error

---
 wasmpack/doh_lookup.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasmpack/doh_lookup.js b/wasmpack/doh_lookup.js
index 17c5bbf..6a5c447 100644
--- a/wasmpack/doh_lookup.js
+++ b/wasmpack/doh_lookup.js
@@ -40,7 +40,7 @@ export async function lookup_doh(domain, ty, doh_endpoint) {
 						wasm.process_query_response(builder, buf);
 						queries_pending -= 1;
 					} catch (e) {
-						return "{\"error\":\"DoH Query failed: " + e + "\"}";
+						return JSON.stringify({error: "DoH Query failed: " + e});
 					}
 					return await send_next_query();
 				} else if (queries_pending == 0) {
-- 
2.43.0

