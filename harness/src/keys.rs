//! Key material. Key ids ("kid") are what the specification talks about; here they get real keys.
//!  1        the Ed25519 anchor that `--cfg dnssec_prover_verif` adds to the root hints
//!  2..=29   Ed25519 (alg 15), seeds [kid; 32]; 28 and 29 collide in their key tag (flags 256)
//!  31, 32   ECDSA P-256 (alg 13)      41  ECDSA P-384 (alg 14)
//!  51, 52   RSA-2048 (51 used with alg 8, 52 with alg 10)
//!  61, 62   keys for algorithms nobody implements (used with alg 5, 7, 12, 16, 253...)
//!  71..=86  public keys that are no keys of any algorithm (bad lengths, bad RSA exponent headers)

use ring::signature::*;
use std::sync::OnceLock;

pub enum Kp { Ed(Ed25519KeyPair), Ec(EcdsaKeyPair), Rsa(RsaKeyPair, &'static dyn RsaEncoding), None }
pub struct Key { pub kid: i64, pub alg: u8, pub public: Vec<u8>, pub kp: Kp }

const COLLIDE: (u32, u32) = include!("collide.in");

fn ed(kid: i64, seed: [u8; 32]) -> Key {
	let kp = Ed25519KeyPair::from_seed_unchecked(&seed).unwrap();
	Key { kid, alg: 15, public: kp.public_key().as_ref().to_vec(), kp: Kp::Ed(kp) }
}
pub fn num_seed(i: u32) -> [u8; 32] {
	let mut s = [0x77; 32];
	s[..4].copy_from_slice(&i.to_be_bytes());
	s
}
fn ec(kid: i64, alg: u8, p8: &[u8], sa: &'static EcdsaSigningAlgorithm) -> Key {
	let rng = ring::rand::SystemRandom::new();
	let kp = EcdsaKeyPair::from_pkcs8(sa, p8, &rng).unwrap();
	Key { kid, alg, public: kp.public_key().as_ref()[1..].to_vec(), kp: Kp::Ec(kp) }
}
fn rsa(kid: i64, alg: u8, p8: &[u8], e: &'static dyn RsaEncoding) -> Key {
	let kp = RsaKeyPair::from_pkcs8(p8).unwrap();
	let pk: ring::rsa::PublicKeyComponents<Vec<u8>> = kp.public().into();
	// kid 52 uses the three-byte exponent length form of RFC 3110.
	let mut public = if kid == 52 { vec![0, 0, pk.e.len() as u8] } else { vec![pk.e.len() as u8] };
	public.extend_from_slice(&pk.e);
	public.extend_from_slice(&pk.n);
	Key { kid, alg, public, kp: Kp::Rsa(kp, e) }
}

pub fn table() -> &'static Vec<Key> {
	static T: OnceLock<Vec<Key>> = OnceLock::new();
	T.get_or_init(|| {
		let mut v = vec![ed(1, [0x42; 32])];
		for k in 2..28 { v.push(ed(k, [k as u8; 32])); }
		v.push(ed(28, num_seed(COLLIDE.0)));
		v.push(ed(29, num_seed(COLLIDE.1)));
		v.push(ec(31, 13, include_bytes!("../keys/p256_1.p8"), &ECDSA_P256_SHA256_FIXED_SIGNING));
		v.push(ec(32, 13, include_bytes!("../keys/p256_2.p8"), &ECDSA_P256_SHA256_FIXED_SIGNING));
		v.push(ec(41, 14, include_bytes!("../keys/p384_1.p8"), &ECDSA_P384_SHA384_FIXED_SIGNING));
		v.push(rsa(51, 8, include_bytes!("../keys/rsa1.p8"), &RSA_PKCS1_SHA256));
		v.push(rsa(52, 10, include_bytes!("../keys/rsa2.p8"), &RSA_PKCS1_SHA512));
		v.push(Key { kid: 61, alg: 0, public: vec![0x61; 40], kp: Kp::None });
		v.push(Key { kid: 62, alg: 0, public: vec![0x62; 41], kp: Kp::None });
		for (i, p) in malformed().into_iter().enumerate() { v.push(Key { kid: 71 + i as i64, alg: 0, public: p, kp: Kp::None }); }
		v
	})
}
/// Public keys whose shape does not fit their algorithm (RFC 3110 headers that promise more than
/// there is, empty moduli, too short and too long curve points).
fn malformed() -> Vec<Vec<u8>> {
	let run = |head: &[u8], n: usize| { let mut v = head.to_vec(); v.extend(std::iter::repeat(0xa5u8).take(n)); v };
	vec![
		vec![], vec![0], vec![0, 0], vec![0, 0, 1], run(&[0, 255, 255], 64), run(&[39], 38), run(&[39], 39), vec![3, 1, 0, 1],
		vec![1, 3], run(&[0, 1, 0], 255), run(&[255], 200), run(&[3, 1, 0, 1], 600), run(&[], 31), run(&[], 33), run(&[], 63), run(&[], 97),
	]
}
pub fn key(kid: i64) -> &'static Key {
	table().iter().find(|k| k.kid == kid).unwrap_or_else(|| panic!("harness: no key {}", kid))
}
pub fn sign(kid: i64, msg: &[u8]) -> Vec<u8> { sign_as(kid, 0, msg) }
/// RSA keys sign with either hash.
pub fn sign_as(kid: i64, alg: u8, msg: &[u8]) -> Vec<u8> {
	if kid == 0 { return vec![0x5a; 64]; }
	let rng = ring::rand::SystemRandom::new();
	match &key(kid).kp {
		Kp::Ed(k) => k.sign(msg).as_ref().to_vec(),
		Kp::Ec(k) => k.sign(&rng, msg).unwrap().as_ref().to_vec(),
		Kp::Rsa(k, e) => {
			let mut out = vec![0; k.public().modulus_len()];
			let e: &dyn RsaEncoding = match alg { 8 => &RSA_PKCS1_SHA256, 10 => &RSA_PKCS1_SHA512, _ => *e };
			k.sign(e, &rng, msg, &mut out).unwrap();
			out
		},
		Kp::None => vec![0x33; 64],
	}
}
/// RFC 4034 appendix B, written independently of the code under test.
pub fn key_tag(flags: u16, proto: u8, alg: u8, public: &[u8]) -> u16 {
	let mut d = flags.to_be_bytes().to_vec();
	d.push(proto); d.push(alg); d.extend_from_slice(public);
	let mut ac: u64 = 0;
	for (i, b) in d.iter().enumerate() { ac += if i % 2 == 1 { *b as u64 } else { (*b as u64) << 8 }; }
	ac += (ac >> 16) & 0xffff;
	(ac & 0xffff) as u16
}
