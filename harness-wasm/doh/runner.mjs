// Runs doh_lookup.js (argument 1) under the direction of the harness: lines of JSON on stdin and
// stdout, everything synchronous but what the script itself awaits. Says what happens, judges nothing.
import fs from 'node:fs';
import { AsyncLocalStorage } from 'node:async_hooks';
const als = new AsyncLocalStorage();
let rest = Buffer.alloc(0);
function recv() {
	for (;;) {
		const i = rest.indexOf(10);
		if (i >= 0) { const l = rest.subarray(0, i).toString(); rest = rest.subarray(i + 1); return JSON.parse(l); }
		const b = Buffer.alloc(1 << 16);
		const n = fs.readSync(0, b, 0, b.length);
		if (n === 0) process.exit(0);
		rest = Buffer.concat([rest, b.subarray(0, n)]);
	}
}
function send(x) {
	const b = Buffer.from(JSON.stringify(x) + '\n');
	for (let o = 0; o < b.length;) o += fs.writeSync(1, b, o);
}
const text = (t) => Array.from(String(t), (c) => c.codePointAt(0));
globalThis.__call = (...a) => { send({ ev: 'call', l: als.getStore() ?? 0, a }); return recv(); };
const open = new Map();
let fetches = 0;
globalThis.fetch = (input, opts) => new Promise((ok, fail) => {
	const r = new Request(input, opts);
	const f = ++fetches;
	open.set(f, { ok, fail });
	send({ ev: 'fetch', l: als.getStore() ?? 0, f, url: text(r.url), accept: text(r.headers.get('accept') ?? ''), method: r.method });
	recv();
});
let lookup_doh;
try {
	({ lookup_doh } = await import(process.argv[2]));
	if (typeof lookup_doh !== 'function') throw new Error('no lookup_doh');
} catch (e) { send({ ev: 'failed', msg: String(e) }); process.exit(0); }
const str = (c) => String.fromCodePoint(...c);
for (;;) {
	for (let i = 0; i < 12; i++) await new Promise((f) => setImmediate(f));
	send({ ev: 'idle' });
	const e = recv();
	if (e.op === 'start') {
		als.run(e.l, () => {
			const tell = (how) => (x) => { send({ ev: 'result', l: e.l, how, text: text(x) }); recv(); };
			Promise.resolve().then(() => lookup_doh(str(e.name), str(e.ty), str(e.endpoint))).then(tell('text'), tell('thrown'));
		});
	} else if (e.op === 'wait') await new Promise((f) => setTimeout(f, e.ms));
	else if (e.op === 'clear') { open.clear(); fetches = 0; }
	else { // reply
		const { ok, fail } = open.get(e.f);
		open.delete(e.f);
		if (e.how === 'error') { const x = new TypeError(str(e.msg)); fail(e.bare ? str(e.msg) : x); }
		else if (e.how === 'cut') { // the body breaks off
			const s = new ReadableStream({ start(c) { c.enqueue(Uint8Array.from(e.body)); }, pull(c) { c.error(new TypeError(str(e.msg))); } });
			ok(new Response(s, { status: e.status }));
		} else ok(new Response([204, 205, 304].includes(e.status) ? null : Uint8Array.from(e.body), { status: e.status, headers: { 'content-type': 'application/dns-message' } }));
	}
}
