// Stands in for what wasm-pack makes: the same functions, each a call of the natively built wrapper
// in the harness (runner.mjs gives `call`).
const call = (...a) => globalThis.__call(...a);
export class WASMProofBuilder { constructor(p) { this.p = p; } }
export default async function init() {}
export async function initSync() {}
function ptr(b) {
	if (!(b instanceof WASMProofBuilder)) throw new Error("expected instance of WASMProofBuilder");
	if (b.p === 0) throw new Error("null pointer passed to rust");
	return b.p;
}
const bytes = (x) => x === null ? undefined : Uint8Array.from(x);
const text = (t) => Array.from(String(t), (c) => c.codePointAt(0));
export function init_proof_builder(name, ty) {
	const p = call("init", text(name), ty & 0xffff);
	return p === 0 ? undefined : new WASMProofBuilder(p);
}
export function process_query_response(b, r) { call("process", ptr(b), Array.from(r)); }
export function get_next_query(b) { return bytes(call("next", ptr(b))); }
export function get_unverified_proof(b) { const p = ptr(b); b.p = 0; return bytes(call("proof", p)); }
export function verify_byte_stream(s) { return String.fromCodePoint(...call("verify", Array.from(s))); }
