"""Plumbing shared by all checks: building the harness, making and running cases, having TLC judge
them or explore a model, evidence, verdicts. Nothing in here decides a property; TLC does."""
import json, os, re, subprocess, sys, time, shutil, hashlib

V = '/verif'
REPO = '/repo'
WORK = None
T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CFG = '--cfg=dnssec_prover_verif'

class Broken(Exception):
    """The machinery could not do its job (exit 2): says nothing about the property."""
class Violation(Exception):
    def __init__(self, what, replay): self.what, self.replay = what, replay

def sh(cmd, timeout=None, env=None, cwd=None, check=True, stdin=None):
    e = dict(os.environ)
    if env: e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, input=stdin)
    except subprocess.TimeoutExpired:
        raise Broken('timeout: %s' % ' '.join(cmd)[:200])
    out, err = p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    if check and p.returncode != 0:
        raise Broken('%s: exit %d\n%s\n%s' % (' '.join(cmd)[:200], p.returncode, out[-700:], err[-1200:]))
    return p.returncode, out, err

def cargo(args, cwd, target, flags=CFG, timeout=800):
    """cargo with the repository's own toolchain, offline."""
    script = '. /opt/vp/env.sh; export CARGO_TARGET_DIR="$VF_TARGET" RUSTFLAGS="$VF_FLAGS"; exec cargo "$@"'
    env = {'VF_TARGET': target, 'VF_FLAGS': flags or ''}
    rc, out, err = sh(['bash', '-c', script, 'cargo'] + args, cwd=cwd, env=env, timeout=timeout, check=False)
    if rc != 0: raise Broken('cargo %s in %s: exit %d\n%s' % (' '.join(args), cwd, rc, '\n'.join(l for l in err.splitlines() if re.match(r'error|\s+-->', l))[:1500]))
    return rc, out, err

_built = {}
FEATURES = {'full': [], 'std': ['--no-default-features', '--features', 'stdonly'], 'min': ['--no-default-features']}
def harness(profile='debug'):
    """The harness binary, rebuilt from /repo's working tree. prod-*: as shipped, without hooks."""
    if profile not in _built:
        p = profile.split('-')
        a, d, flags, rel = [], V + '/build/target', CFG, profile == 'release'
        if p[0] == 'prod':
            a, d, flags, rel = list(FEATURES[p[1]]), V + '/build/target-prod', '', p[2] == 'release'
        cargo(['build', '--offline', '--bin', 'vh'] + a + (['--release'] if rel else []), V + '/harness', d, flags)
        b = '%s/%s/vh' % (d, 'release' if rel else 'debug')
        if p[0] == 'prod': # configurations share a directory
            os.makedirs(WORK + '/bin', exist_ok=True)
            shutil.copy(b, '%s/bin/%s' % (WORK, profile))
            b = '%s/bin/%s' % (WORK, profile)
        _built[profile] = b
    return _built[profile]

def http_server():
    """The server binary, rebuilt from /repo's working tree; the harness finds it by VH_HTTP."""
    if 'http' not in _built:
        cargo(['build', '--offline', '--bin', 'http_proof_gen', '--features', 'build_server'], REPO, V + '/build/target-http', '')
        _built['http'] = os.environ['VH_HTTP'] = V + '/build/target-http/debug/http_proof_gen'
    return _built['http']

def wasm_harness():
    """The harness linked with the WebAssembly wrapper, built natively."""
    if 'wasm' not in _built:
        cargo(['build', '--offline', '--bin', 'vhw'], V + '/harness-wasm', V + '/build/target-wasm')
        _built['wasm'] = V + '/build/target-wasm/debug/vhw'
    return _built['wasm']
def doh_dir():
    """The lookup script of the wrapper as it is in /repo, next to the runner and a stand-in for the WebAssembly glue."""
    if 'doh' not in _built:
        d = WORK + '/doh'
        os.makedirs(d, exist_ok=True)
        for f in [V + '/harness-wasm/doh/runner.mjs', V + '/harness-wasm/doh/dnssec_prover_wasm.js', REPO + '/wasmpack/doh_lookup.js']:
            shutil.copy(f, d)
        open(d + '/package.json', 'w').write('{"type":"module"}')
        _built['doh'] = os.environ['VH_DOH'] = d
    return _built['doh']

def binary(kind, profile):
    if kind.startswith('doh'): doh_dir()
    return wasm_harness() if kind.startswith(('wasm', 'doh')) else harness(profile)

def start(pid):
    global WORK
    WORK = '%s/build/work/%s.%d' % (V, pid, os.getpid())
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    if os.path.exists('%s/evidence/%s-violation.json' % (V, pid)): os.remove('%s/evidence/%s-violation.json' % (V, pid))
    return WORK

def sub_seed(tag):
    return int.from_bytes(hashlib.sha256(('%d:%s' % (SEED, tag)).encode()).digest()[:6], 'big') >> 1

def gen(kind, count, tag='', profile='debug'):
    """Random cases of a kind, run on the real code."""
    out = '%s/%s.ndj' % (WORK, re.sub(r'\W', '_', kind + tag))
    vh = binary(kind, profile)
    sh([vh, 'gen', kind, str(sub_seed(kind + tag)), str(count), out], timeout=820)
    return out

def run(kind, cases, tag='', profile='debug'):
    """Given cases (a list of objects or a file of lines), run on the real code."""
    if not isinstance(cases, str):
        p = '%s/%s.in' % (WORK, re.sub(r'\W', '_', kind + tag))
        with open(p, 'w') as f:
            for c in cases: f.write(json.dumps(c, separators=(',', ':')) + '\n')
        cases = p
    out = '%s/%s.out' % (WORK, re.sub(r'\W', '_', kind + tag))
    sh([binary(kind, profile), 'run', kind, cases, out], timeout=820)
    return out

class Tlc:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated, self.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        self.ok = 'Model checking completed. No error has been found' in out
        v = re.search(r'Error: Invariant (\S+) is violated', out) or re.search(r'Error: Action property (\S+)', out) \
            or re.search(r'(Temporal properties were violated)', out) or re.search(r'(Deadlock reached)', out)
        self.violated = v.group(1) if v else None
        if not self.ok and not self.violated: raise Broken('TLC failed:\n' + out[-1500:])
    def last(self, var):
        m = re.findall(r'^(?:/\\ )?%s = (.*)' % re.escape(var), self.out, re.M)
        return m[-1].strip() if m else None
    def printed(self):
        """Strings printed by the specification with PrintT."""
        for l in self.out.splitlines():
            if l.startswith('"') and l.endswith('"'):
                yield l[1:-1].replace('\\"', '"').replace('\\\\', '\\')

def tlc(spec, cfg, env=None, workers=8, heap='10g', timeout=840, extra=()):
    """Runs TLC on /verif/spec/<spec>.tla with the given configuration text (or file name)."""
    name = hashlib.sha256((spec + cfg + str(env)).encode()).hexdigest()[:10]
    if '\n' in cfg:
        p = '%s/%s_%s.cfg' % (WORK, spec, name)
        open(p, 'w').write(cfg)
    else: p = '%s/spec/%s' % (V, cfg)
    md = '%s/md_%s_%d' % (WORK, name, time.time_ns() % 10**9)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', JARS, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', md, '-noGenerateSpecTE', '-fp', '1', '-config', p] + list(extra) + [spec + '.tla']
    rc, out, err = sh(cmd, cwd=V + '/spec', env=env, check=False, timeout=timeout)
    shutil.rmtree(md, ignore_errors=True)
    return Tlc(out + err, rc)

def lines(f):
    with open(f) as h: return [l for l in h.read().split('\n') if l]

def _judge1(args):
    spec, inv, f, workers, env, sn, more = args
    cfg = 'SPECIFICATION ' + sn + '\nCHECK_DEADLOCK FALSE\nINVARIANT %s\n' % inv + more
    e = {'CASES': f}
    if env: e.update(env)
    return tlc(spec, cfg, env=e, workers=workers)

def judge(pid, spec, inv, casefile, env=None, chunk=25000, spec_name='Spec', note=None, more=''):
    """TLC decides, with invariant inv of the judge specification, every case of the file."""
    ls = lines(casefile)
    if not ls: raise Broken('no cases in ' + casefile)
    tot, kinds = 0, {}
    if note: inv_all = inv + ' ' + note
    else: inv_all = inv
    for k in range(0, len(ls), chunk):
        f = casefile
        if len(ls) > chunk:
            f = '%s.%d' % (casefile, k)
            open(f, 'w').write('\n'.join(ls[k:k + chunk]) + '\n')
        r = _judge1((spec, inv_all, f, 8, env, spec_name, more))
        for m in r.printed(): kinds[m] = kinds.get(m, 0) + 1
        if r.violated:
            i = int(r.last('i'))
            bad = json.loads(ls[k + i - 1])
            raise Violation('%s: case %d of %s violates %s' % (spec, k + i, os.path.basename(casefile), inv),
                            keep(pid, {'spec': spec, 'invariant': inv, 'case': bad, 'source': os.path.basename(casefile), 'index': k + i}))
        tot += r.distinct
        if f != casefile: os.remove(f)
    return {'judged': len(ls), 'states': tot, 'kinds': dict(sorted(kinds.items(), key=lambda x: (not x[0].startswith('finding'), -x[1]))[:30])}

def keep(pid, obj):
    d = V + '/evidence'
    p = '%s/%s-violation.json' % (d, pid)
    json.dump(obj, open(p, 'w'))
    return p

def nontrivial(casefile, f):
    """Distinct cases (without what the code did) for which f(case, out) holds."""
    s = set()
    for l in lines(casefile):
        c = json.loads(l)
        o = c.pop('out', None)
        if f(c, o): s.add(hashlib.sha256(json.dumps(c, sort_keys=True).encode()).digest()[:12])
    return len(s)

def short(x, n=1500):
    t = json.dumps(x)
    return x if len(t) <= n else t[:n] + '...'

def sample(casefile, k=2):
    ls = lines(casefile)
    return [short(json.loads(l)) for l in sorted(ls, key=len)[len(ls) // 2:len(ls) // 2 + k]]

def outcomes(casefile):
    c = {}
    for l in lines(casefile):
        r = json.loads(l).get('out', {}).get('res', '?')
        c[r] = c.get(r, 0) + 1
    return c

class Cov(dict):
    """Coverage of a check: counts add up as its parts run."""
    def __init__(self):
        super().__init__(states=0, transitions=0, traces_validated_against_impl=0, samples=[], parts=[])
    def lap(self):
        now = time.time()
        self['parts'][-1]['seconds'] = round(now - getattr(self, 't', T0), 1)
        self.t = now
    def model(self, name, r, **kw):
        self['states'] += r.distinct
        self['transitions'] += r.generated
        self['parts'].append(dict(model=name, states=r.distinct, transitions=r.generated, **kw))
        self.lap()
    def cases(self, name, j, casefile, **kw):
        self['traces_validated_against_impl'] += j['judged']
        if j.get('kinds'): kw['kinds'] = j['kinds']
        self['parts'].append(dict(conformance=name, cases=j['judged'], outcomes=outcomes(casefile), **kw))
        self.lap()
        if len(self['samples']) < 4: self['samples'] += sample(casefile, 1)

def pool(name):
    """One of the record pools of Pools.tla, as JSON."""
    t = WORK + '/tables.json'
    if not os.path.exists(t): sh([harness(), 'tables', t])
    r = tlc('Pools', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', env={'TABLES': t, 'POOLNAME': name}, workers=1)
    f = '%s/pool_%s.json' % (WORK, name)
    for l in r.out.splitlines():
        if l.startswith('"'): open(f, 'w').write(json.loads(l))
    return f

def verifier_model(name, miss=9, bad=19, anyorder=False, invs=('Refines', 'Complete', 'Bounded', 'NoZoneTwice', 'Sound'), live=False, export=False):
    """Model-checks Verifier.tla on a pool; the presented proofs, for replay."""
    f = pool(name)
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Miss = %d\n Bad = %d\n AnyOrder = %s\nINVARIANTS %s\n' % (
        miss, bad, 'TRUE' if anyorder else 'FALSE', ' '.join(list(invs) + (['Export'] if export else [])))
    if live: cfg += 'PROPERTY Terminates\n'
    r = tlc('Verifier', cfg, env={'POOL': f})
    if r.violated: raise Broken('the specification breaks its own property %s on pool %s' % (r.violated, name))
    subs = {}
    for l in r.printed():
        if l.startswith('SUB '):
            _, res, t = l.split(' ', 2)
            subs.setdefault(tuple(sorted(int(x) for x in re.findall(r'\d+', t))), set()).add(res)
    return r, json.load(open(f)), subs

def choose(subs, k, rnd):
    """Subsets to replay: those accepted, those one bundle away from an accepted one, and others."""
    al = sorted(subs)
    if len(al) <= k: return al
    ok = [x for x in al if 'ok' in subs[x]]
    oks = set(ok)
    near = [x for x in al if x not in oks and any(tuple(sorted(set(x) ^ {b})) in oks for b in range(1, 64))]
    out = rnd.sample(ok, min(len(ok), k * 2 // 5)) + rnd.sample(near, min(len(near), k * 2 // 5))
    rest = sorted(set(al) - set(out))
    return out + rnd.sample(rest, k - len(out))

def pool_cases(p, subs):
    """The proofs (as cases for the harness) that subsets of a pool's bundles make."""
    out = []
    for s in subs:
        rrs = [rr for b in s for rr in p['bundles'][b - 1]]
        out.append(dict(names=p['names'], rd=p['rd'], rrs=rrs, h=p['h'], sub=s))
    return out

def known_findings(pid):
    p = V + '/known-findings.json'
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid] if os.path.exists(p) else []

def main(pid, level, fn, assumptions):
    start(pid)
    viol = 0
    cov = Cov()
    rc = 0
    try:
        fn(cov)
    except Violation as v:
        print(v.what)
        print('VIOLATION property=%s replay=%s' % (pid, v.replay))
        viol, rc = 1, 1
    except Broken as b:
        print('CHECK BROKEN property=%s: %s' % (pid, b))
        rc = 2
    if cov['states'] == 0: cov['states'] = 0
    ev = dict(property=pid, tier='thorough' if TIER == 'thorough' else 'quick', seed=SEED, level=level, coverage=cov,
              assumptions=assumptions, wall_s=round(time.time() - T0, 2), violations=viol)
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    shutil.rmtree(WORK, ignore_errors=True)
    if rc == 0: print('OK property=%s (%d model states, %d cases run on the code and judged, %.0f s)' % (pid, cov['states'], cov['traces_validated_against_impl'], time.time() - T0))
    sys.exit(rc)
