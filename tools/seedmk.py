#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from tools/seeds.py and confirms each: the patch applies, builds, keeps the
stable tests passing, and the demonstration passes without it and fails with it. Then runs the check.
  seedmk.py make [ids]      patch.diff, demo.sh, kit, meta.json
  seedmk.py confirm [ids]   build, tests and demonstration, with and without
  seedmk.py check [ids]     the property's check, against the change in /repo
Nothing here is a check; the checks never look in /verif/seeded."""
import sys, os, json, subprocess, shutil, tempfile, time
sys.path.insert(0, '/verif/tools')
import seeds
S, R, KIT = '/verif/seeded', '/repo', '/verif/tools/seedkit'
RES = '/verif/build/seeds.json'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def clean(): sh('git -C /repo checkout -- .')
def make(s):
    d = '%s/%s' % (S, s['id'])
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    assert not sh('git -C /repo status --porcelain').stdout, 'dirty /repo'
    try:
        for f, old, new in s['edits']:
            p = '%s/%s' % (R, f); t = open(p).read()
            assert t.count(old) == 1, '%s: %d occurrences in %s of %s' % (s['id'], t.count(old), f, old[:60])
            open(p, 'w').write(t.replace(old, new))
        # The lines taken out must not all be ones this work put in.
        diff = sh('git -C /repo diff').stdout
    finally: clean()
    open(d + '/patch.diff', 'wb').write(diff)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    kit = d + '/kit'
    if s.get('files'):
        os.makedirs(kit)
        for f, t in s['files'].items():
            os.makedirs(os.path.dirname(kit + '/' + f), exist_ok=True)
            open(kit + '/' + f, 'w').write(t)
        run = s['run']
    else:
        shutil.copytree(KIT, kit)
        open(kit + '/src/main.rs', 'w').write('#![allow(dead_code, unused_imports)]\nmod json; mod rng; mod keys; mod world; mod zone;\nuse world::*; use zone::*; use dnssec_prover::rr::*; use dnssec_prover::ser::*; use dnssec_prover::validation::*; use dnssec_prover::query::*;\n\nfn main() {\n' + s['main'].strip('\n') + '\n}\n' + s.get('more', ''))
        if s.get('deps'):
            os.remove(kit + '/Cargo.lock')
            c = open(kit + '/Cargo.toml').read()
            open(kit + '/Cargo.toml', 'w').write(c.replace('[dependencies]\n', '[dependencies]\n' + s['deps'] + '\n'))
        run = 'export RUSTFLAGS=--cfg=dnssec_prover_verif\ncargo run --offline -q'
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# %s
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"
trap 'find "$W" -delete' EXIT
cp -r "$D/kit" "$W/kit"
cd "$W/kit" || exit 2
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$W/target"
%s
''' % (s['breaks'].replace('\n', ' '), run))
    os.chmod(d + '/demo.sh', 0o755)
def save(i, k, v):
    try: r = json.load(open(RES))
    except Exception: r = {}
    r.setdefault(i, {})[k] = v
    json.dump(r, open(RES, 'w'), indent=1, sort_keys=True)
def demo(d):
    w = tempfile.mkdtemp(prefix='seed')
    c = w + '/x'
    shutil.copytree(d, c, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
    try: return sh('cd /repo && timeout 300 bash %s/demo.sh' % c)
    finally: shutil.rmtree(w)
def tests():
    b = sh('bash /opt/vp/build.sh')
    if b.returncode: return 'build: ' + b.stdout.decode()[-600:]
    o = '/tmp/seedtest.json'
    sh('bash /opt/vp/test.sh ' + o)
    base, r = json.load(open('/opt/vp/BASELINE.json')), json.load(open(o))
    want = base.get('stable') or base.get('tests') or base.get('passed') or base
    want = want if isinstance(want, list) else list(want)
    got = r.get('passed') or [k for k, v in r.get('tests', r).items() if v in ('passed', 'pass', True)]
    miss = [t for t in want if t not in got]
    return 'tests fail: %s' % miss[:4] if miss else ''
def confirm(s):
    d = '%s/%s' % (S, s['id'])
    a = demo(d)
    if sh('git -C /repo apply %s/patch.diff' % d).returncode: return 'does not apply'
    try:
        t = tests()
        if t: return t
        b = demo(d)
    finally: clean()
    if a.returncode != 0: return 'fails on the clean tree: ' + a.stdout.decode()[-900:]
    if b.returncode == 0: return 'passes with the change'
    return 'ok (%s)' % b.stdout.decode().strip().splitlines()[-1][:100]
def check(s):
    d = '%s/%s' % (S, s['id'])
    if sh('git -C /repo apply %s/patch.diff' % d).returncode: return 'does not apply'
    t0 = time.time()
    try: r = sh('cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 tools/check.py %s' % s['property'])
    finally: clean()
    o = r.stdout.decode()
    caught = r.returncode == 1 and 'VIOLATION property=%s' % s['property'] in o
    return '%s rc=%d %.0fs %s' % ('CAUGHT' if caught else 'MISSED', r.returncode, time.time() - t0, '' if caught else o[-300:])
if __name__ == '__main__':
    what, ids = sys.argv[1], sys.argv[2:]
    for s in seeds.SEEDS:
        if ids and not any(s['id'].startswith(i) for i in ids): continue
        if what == 'make': make(s); continue
        r = {'confirm': confirm, 'check': check}[what](s)
        save(s['id'], what, r)
        print(s['id'], r, flush=True)
    if what != 'make': sh('bash /opt/vp/build.sh')
