"""What each check runs. quick/thorough only change how much."""
import json, os
import vf
from vf import judge, gen, run, tlc

def n(q, t): return t if vf.TIER == 'thorough' else q
CHECKS = {}
IDEAL = ['Signatures and digests are ideal: a signature verifies only under the key that made it and over what it was made over (ring is trusted).']
def check(pid, assumptions=(), level='model_checking'):
    def d(f):
        CHECKS[pid] = dict(fn=f, level=level, assumptions=list(assumptions))
        return f
    return d

def verify(pid, inv, profiles, cov):
    """Random proofs, honest and attacked, run on the verifier and judged against Validation.tla."""
    for prof, cnt in profiles:
        f = gen('verify:' + prof, cnt, tag=pid)
        j = judge(pid, 'JudgeVerify', inv, f, note='Note')
        cov.cases('verify:' + prof, j, f)

QUICK_PART = {'wild': (3, 2), 'nsec3': (4, 3), 'chain': (2, 4), 'loop': (4, 4)}
def attack(pid, inv, pools, cov, cap, live=False, anyorder=None):
    """Model-checks the walk and the attacker on each pool, then replays presented proofs on the code."""
    import random
    for name in pools:
        miss, bad = n(QUICK_PART.get(name, (99, 99)), (99, 99))
        r, p, subs = vf.verifier_model(name, miss=miss, bad=bad, export=True)
        cov.model('Verifier.tla, pool %s, %s' % (name, 'every subset' if miss == 99 else 'subsets with <= %d honest bundles missing and <= %d others' % (miss, bad)), r, proofs=len(subs))
        rnd = random.Random(vf.sub_seed(pid + name))
        cs = vf.pool_cases(p, vf.choose(subs, n(cap, 12 * cap), rnd))
        for c in cs: # the order of records is the attacker's choice, too
            rnd.shuffle(c['rrs'])
        f = run('verify', cs, tag=pid + name)
        j = judge(pid, 'JudgeVerify', inv, f)
        cov.cases('replay of proofs presented in pool %s' % name, j, f)
    for name, miss, bad in anyorder or ():
        r, _, _ = vf.verifier_model(name, miss=miss, bad=bad, anyorder=True, live=live)
        cov.model('Verifier.tla, pool %s, signatures tried in every order, <= %d honest bundles missing, <= %d others%s' % (name, miss, bad, ', termination' if live else ''), r)

@check('C01', IDEAL)
def c01(cov):
    verify('C01', 'C01', [('malice', n(6000, 60000)), ('', n(4000, 60000)), ('wild', n(2000, 20000)), ('large', n(80, 2000))], cov)
    attack('C01', 'C01', ['chain', 'alg'] + n([], ['wild', 'nsec3', 'loop']), cov, 3000)

@check('C02', IDEAL)
def c02(cov):
    kf = [k for k in vf.known_findings('C02') if k['id'] == 'nsec-last']
    inv = 'C02' if kf else 'C02Strict'
    verify('C02', inv, [('wild', n(1500, 20000)), ('honest', n(8000, 80000)), ('alg', n(3000, 30000)), ('', n(3000, 30000)), ('large', n(160, 4000))], cov)
    if kf and any(k.startswith('finding nsec-last') for p in cov['parts'] for k in p.get('kinds', {})): print('KNOWN-FINDING: property=C02 ' + kf[0]['what'])
    attack('C02', inv, ['loop'] + n([], ['chain', 'wild', 'nsec3', 'window', 'alg']), cov, 3000)

@check('C03', IDEAL)
def c03(cov):
    for prof, cnt in [('order:honest', n(4000, 80000)), ('order', n(2000, 40000)), ('order:wild', n(2000, 40000)), ('order:alg', n(1500, 30000)), ('order:window', n(1500, 30000))]:
        f = gen(prof, cnt, tag='C03')
        j = judge('C03', 'JudgeOrder', 'C03', f, note='Note')
        cov.cases(prof, j, f)
    attack('C03', 'C03', [], cov, 0, anyorder=n([('loop', 1, 2), ('wild', 0, 1)], [('loop', 2, 4), ('chain', 1, 2), ('wild', 1, 2)]))

@check('C04', IDEAL)
def c04(cov):
    verify('C04', 'C04', [('window', n(8000, 80000)), ('honest', n(6000, 60000))], cov)
    attack('C04', 'C04', ['window'], cov, 5000)

@check('C05', IDEAL)
def c05(cov):
    verify('C05', 'C05', [('wild', n(9000, 120000)), ('', n(2000, 30000))], cov)
    attack('C05', 'C05', ['wild', 'nsec3'], cov, 3000)

@check('C06', IDEAL)
def c06(cov):
    verify('C06', 'C06', [('alg', n(12000, 100000)), ('malice', n(4000, 40000))], cov)
    attack('C06', 'C06', ['alg'], cov, 6000)
    wire('C06', 'C10', [('write:tag', n(250, 4000))], cov)

@check('C07', IDEAL)
def c07(cov):
    verify('C07', 'C07', [('malice', n(8000, 80000)), ('', n(4000, 40000)), ('order', n(2000, 20000)), ('wild', n(2000, 20000)), ('large', n(80, 2000))], cov)
    attack('C07', 'C07', ['loop'], cov, 3000, live=True, anyorder=n([('loop', 1, 3)], [('loop', 2, 4), ('chain', 1, 2), ('wild', 1, 2)]))

def wire(pid, inv, kinds, cov, self_inv=None, note=None):
    """Random cases of the encodings, judged against Wire.tla."""
    for kind, cnt in kinds:
        f = gen(kind, cnt, tag=pid)
        j = judge(pid, 'JudgeWire', inv, f, note=note)
        if self_inv and vf.tlc('JudgeWire', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT %s\n' % self_inv, env={'CASES': f}).violated:
            raise vf.Broken('the specification breaks %s' % self_inv)
        cov['states'] += j['states']
        cov.cases(kind, j, f)

@check('C09')
def c09(cov):
    wire('C09', 'C09', [('parse', n(12000, 200000)), ('parse:rdata', n(20000, 300000)), ('parse:raw', n(20000, 300000)), ('parse:big', n(60, 600))], cov, note='NoteParse')
    wire('C09', 'C09', [('parse:many', n(60, 1000))], cov, self_inv='C09ManySelf', note='NoteParse')
    builder('C09', 'C09m', [('builder:parse', n(3000, 60000)), ('builder:big', n(24, 400)), ('builder:far', n(150, 3000))], cov)

@check('C10')
def c10(cov):
    wire('C10', 'C10', [('write', n(9000, 200000)), ('write:types', n(1000, 20000)), ('write:big', n(60, 600))], cov, self_inv='C10Self')

@check('C12')
def c12(cov):
    wire('C12', 'C12', [('name', n(40000, 500000))], cov)

@check('C13')
def c13(cov):
    wire('C13', 'C13', [('json', n(9000, 200000))], cov)

@check('C14')
def c14(cov):
    wire('C14', 'C14', [('cmp', n(10000, 150000)), ('cmp:txt', n(10000, 150000))], cov)

@check('C11', IDEAL)
def c11(cov):
    wire('C11', 'C11', [('signed', n(12000, 150000))], cov, note='NoteSigned')
    for prof, find in [('txtsplit', 'txt-strings'), ('nsecupper', 'nsec-case')]:
        kf = [k for k in vf.known_findings('C11') if k['id'] == find]
        f = gen('signed:' + prof, n(300, 5000), tag='C11')
        j = judge('C11', 'JudgeWire', 'C11Known' if kf else 'C11', f, note='NoteKnown')
        if kf and j['kinds'].get('finding ' + find): print('KNOWN-FINDING: property=C11 %s' % kf[0]['what'])
        cov.cases('signed:' + prof, j, f)

def builder(pid, inv, kinds, cov, spec='Spec'):
    for kind, cnt in kinds:
        f = gen(kind, cnt, tag=pid)
        j = judge(pid, 'JudgeBuilder', inv, f, spec_name=spec, note='NoteB' if spec == 'Spec' else None)
        cov['states'] += j['states']
        cov.cases(kind, j, f)

def builder_model(pid, inv, cov, msgs, names, cap):
    """Every sequence of messages up to a length, on the model; then replayed on the code."""
    import random
    cfg = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxMsgs = %d\n MaxNames = %d\n Export = %s\n'
           'INVARIANTS Once Limited Needed Done Stops Proof Lowest Exported\n')
    big = tlc('BuilderMC', cfg % (msgs + n(1, 2), names, 'FALSE'))
    r = tlc('BuilderMC', cfg % (msgs, names, 'TRUE'))
    if r.violated or big.violated: raise vf.Broken('the specification breaks its own property %s' % (r.violated or big.violated))
    hs = sorted(set(r.printed()))
    cov.model('BuilderMC.tla, every sequence of %d messages, <= %d signer names' % (msgs + n(1, 2), names), big)
    rnd = random.Random(vf.sub_seed(pid))
    rnd.shuffle(hs)
    cs = [dict(qn=[[97]], qt=16, abs=json.loads(h), fill=rnd.choice([0, 12, 12, 12]), seed=rnd.randrange(1 << 30)) for h in hs[:n(cap, 12 * cap)]]
    f = run('builder', cs, tag=pid + 'mc')
    j = judge(pid, 'JudgeBuilder', inv, f)
    cov.cases('replay of BuilderMC behaviours (%d of %d)' % (len(cs), len(hs)), j, f)

@check('C15')
def c15(cov):
    builder('C15', 'C15', [('builder:hdr', n(4500, 100000)), ('builder', n(1500, 60000)), ('builder:parse', n(2500, 60000)), ('builder:big', n(24, 400))], cov)
    builder_model('C15', 'C15', cov, 4, 6, 800)

@check('C16')
def c16(cov):
    builder('C16', 'C16', [('builder:long', n(2500, 60000)), ('builder', n(1500, 60000))], cov)
    builder_model('C16', 'C16', cov, n(4, 5), 7, 1500)

@check('C23')
def c23(cov):
    builder('C23', 'C23', [('query', n(15000, 200000))], cov, spec='SpecQ')

@check('C08')
def c08(cov):
    import random
    for prof, cnt in [('resolve', n(4000, 100000)), ('resolve:long', n(1500, 40000)), ('resolve:chain', n(400, 6000))]:
        f = gen(prof, cnt, tag='C08')
        j = judge('C08', 'JudgeResolve', 'C08', f, note='Note')
        cov.cases(prof, j, f)
    r = tlc('ResolveMC', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxSub = %d\n Export = TRUE\nINVARIANTS Declared Single Exported\nPROPERTY Ends\n' % n(2, 3))
    if r.violated: raise vf.Broken('the specification breaks its own property %s' % r.violated)
    cov.model('ResolveMC.tla, every set of <= %d of 13 aliases, every question' % n(2, 4), r)
    rnd = random.Random(vf.sub_seed('C08'))
    pool = ("C a b;C b a;C b.a xa;C xa b.a;C a a;C b c.b.a;D a b;D b a;D a b.a;D . b;D b .;D a .;D b.a xa;T a;T b;T b.a;T a.b;T xa;T .").split(';')
    lab = lambda t: [list(map(ord, l)) for l in t.split('.') if l]
    rec = lambda p: dict(t=5 if p[0] == 'C' else 39, n=lab(p[1]), tn=lab(p[2])) if p[0] != 'T' else dict(t=16, n=lab(p[1]), x=[120])
    recs = [rec(p.split()) for p in pool]
    cs = []
    for l in sorted(set(r.printed())):
        d = json.loads(l)
        rrs = [recs[k - 1] for k in sorted(d['sub']) + list(range(14, 20))]
        rnd.shuffle(rrs)
        cs.append(dict(rrs=rrs, q=d['q']))
    cs = cs if len(cs) <= n(3000, 60000) else rnd.sample(cs, n(3000, 60000))
    f = run('resolve', cs, tag='mc')
    cov.cases('replay of ResolveMC questions', judge('C08', 'JudgeResolve', 'C08', f), f)

@check('C20')
def c20(cov):
    import random
    def one(name, f):
        j = judge('C20', 'JudgeWasm', 'C20', f, note='Note', chunk=3000)
        cov['states'] += j['states']
        cov.cases(name, j, f)
    for prof, cnt in [('zones', n(500, 12000)), ('over', n(120, 3000)), ('msgs', n(700, 20000)), ('name', n(1500, 40000)), ('bytes', n(1000, 25000)), ('junk', n(700, 20000))]:
        one('wasm:' + prof, gen('wasm:' + prof, cnt, tag='C20'))
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxOps = %d\n MaxNames = %d\n Export = %s\nINVARIANTS InOrder Once Needed Enough%s\n'
    big = tlc('WasmMC', cfg % (n(13, 18), 5, 'FALSE', '\nVIEW View'))
    r = tlc('WasmMC', cfg % (n(6, 7), 5, 'TRUE', ' Exported'))
    if r.violated or big.violated: raise vf.Broken('the specification breaks its own property %s' % (r.violated or big.violated))
    cov.model('WasmMC.tla, every history of <= %d calls, <= 5 signer names' % n(13, 18), big)
    hs = sorted(set(r.printed()))
    rnd = random.Random(vf.sub_seed('C20'))
    rnd.shuffle(hs)
    k = n(2500, 40000)
    name = [ord(x) for x in 'x.f.e.d.c.b.a.']
    one('replay of WasmMC: %d of the %d histories of <= %d calls' % (min(k, len(hs)), len(hs), n(6, 7)),
        run('wasm', [dict(name=name[:len(name) - rnd.randrange(2)], ty=16, ops=json.loads(h), seed=rnd.randrange(1 << 30)) for h in hs[:k]], tag='C20mc'))

@check('C24')
def c24(cov):
    import random
    def one(name, f):
        j = judge('C24', 'JudgeDoh', 'C24', f, note='Note', chunk=200)
        cov['states'] += j['states']
        cov.cases(name, j, f)
    for prof, cnt in [('zones', n(250, 8000)), ('many', n(150, 5000)), ('fail', n(400, 12000)), ('name', n(300, 10000))]:
        one('doh:' + prof, gen('doh:' + prof, cnt, tag='C24'))
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS L = %d\n MaxEvs = %d\n MaxNames = %d\n Parallel = %s\n Export = %s\nINVARIANTS Once Whole Alive%s\nPROPERTY Ends\n'
    for l, e, m, par in n([(2, 5, 3, 'TRUE'), (2, 7, 3, 'FALSE')], [(2, 6, 3, 'TRUE'), (2, 12, 5, 'FALSE'), (3, 8, 3, 'FALSE')]):
        r = tlc('DohMC', cfg % (l, e, m, par, 'FALSE', ''))
        if r.violated: raise vf.Broken('the specification breaks its own property %s' % r.violated)
        cov.model('DohMC.tla, %d lookups, every history of <= %d events, <= %d signer names, %s' % (l, e, m, 'questions at once' if par == 'TRUE' else 'one question after another'), r)
    r = tlc('DohMC', cfg % (2, n(6, 7), 2, 'FALSE', 'TRUE', ' Exported'))
    if r.violated: raise vf.Broken('the specification breaks its own property %s' % r.violated)
    hs = sorted(set(r.printed()))
    rnd = random.Random(vf.sub_seed('C24'))
    rnd.shuffle(hs)
    hs, k = hs[:n(500, 20000)], len(hs)
    codes = lambda t: [ord(c) for c in t]
    def case(h):
        evs = json.loads(h)
        for e in evs:
            if e['op'] == 'reply': e.update(msg=codes(rnd.choice(['Failed to fetch', 'a "b" \\c', ''])), bare=rnd.random() < .5, status=rnd.choice([404, 500, 204 + 96]))
        return dict(lookups=[dict(name=codes('x.f.e.d.c.b.a' + rnd.choice(['', '.'])), ty=codes(rnd.choice(['txt', 'TXT', 'tXt'])), n=16, w=-1) for _ in range(2)],
                    worlds=[], evs=evs, endpoint=codes('https://dns.example/dns-query'), seed=rnd.randrange(1 << 30))
    one('replay of DohMC: %d of the %d histories of <= %d events' % (len(hs), k, n(6, 7)), run('doh', [case(h) for h in hs], tag='C24mc'))

@check('C21')
def c21(cov):
    import random
    for kind, cnt in [('buffer', n(12000, 200000)), ('buffer:big', n(3000, 40000))]:
        f = gen(kind, cnt, tag='C21')
        j = judge('C21', 'JudgeBuffer', 'C21', f, note='Note')
        cov['states'] += j['states']
        cov.cases(kind, j, f)
    cfg = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Limit = 2048\n Max = 65535\n Depth = %d\n Sizes = {%s}\n Export = %s\nINVARIANTS Refines Lengths Exported\n%s')
    big = tlc('BufferMC', cfg % (n(5, 6), '0, 1, 2047, 2048, 2049, 63486, 63487, 65535', 'FALSE', 'VIEW View\n'))
    r = tlc('BufferMC', cfg % (3, '1, 2047, 2048, 63487', 'TRUE', ''))
    if r.violated or big.violated: raise vf.Broken('the specification breaks its own property %s' % (r.violated or big.violated))
    cov.model('BufferMC.tla, every sequence of <= %d operations with sizes around 0, 2048, 65535' % n(5, 6), big)
    hs = sorted(set(r.printed()))
    random.Random(vf.sub_seed('C21')).shuffle(hs)
    f = run('buffer', [dict(ops=json.loads(h)) for h in hs[:n(3000, 30000)]], tag='C21mc')
    j = judge('C21', 'JudgeBuffer', 'C21', f)
    cov.cases('replay of BufferMC behaviours (%d of %d)' % (min(len(hs), n(3000, 30000)), len(hs)), j, f)

@check('C22', IDEAL)
def c22(cov):
    more = 'CONSTANT IsAnchorKey <- Nobody\nINVARIANT None\n'
    for prof, k in [('prod-full-debug', 4), ('prod-std-release', 2), ('prod-min-debug', 1)]:
        for kind, cnt in [('anchors:hints', 1), ('anchors:real', n(100, 2000) * k), ('anchors', n(400, 20000) * k)]:
            f = gen(kind, cnt, tag=prof, profile=prof)
            j = judge('C22', 'JudgeAnchors', 'C22', f, note='Note', more=more)
            cov['states'] += j['states']
            cov.cases('%s in build %s' % (kind, prof), j, f)

@check('C17', IDEAL)
def c17(cov):
    import random
    kfs = {k['id']: k for k in vf.known_findings('C17')}
    inv = 'C17' if kfs else 'C17Strict'
    def truth(f):
        if vf.tlc('JudgeE2E', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Truth\n', env={'CASES': f}).violated: raise vf.Broken('the resolver of the harness does not tell the truth')
    def one(name, f):
        truth(f)
        j = judge('C17', 'JudgeE2E', inv, f, note='Note')
        cov['states'] += j['states']
        cov.cases(name, j, f)
        for i in list(kfs):
            if any(k.startswith('finding ' + i) for k in j['kinds']): print('KNOWN-FINDING: property=C17 ' + kfs.pop(i)['what'])
    for prof, cnt in [('e2e:twonsec', n(100, 1000)), ('e2e', n(900, 40000)), ('e2e:max', n(900, 40000)), ('e2e:wild', n(700, 20000))]:
        one(prof, gen(prof, cnt, tag='C17'))
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MinZones = %d\n MaxZones = %d\n Export = %s\n'
    big = tlc('E2EMC', cfg % (1, n(5, 6), 'FALSE') + 'VIEW View\nINVARIANTS Within5 Counted Right NeverOver NotLess\n' + n('PROPERTY Ends\n', ''))
    r = tlc('E2EMC', cfg % (1, n(3, 4), 'TRUE') + 'INVARIANTS Exported Right\n')
    if r.violated or big.violated: raise vf.Broken('the specification breaks its own property %s' % (r.violated or big.violated))
    cov.model('E2EMC.tla, every tree of <= %d zones, every set of signers, every order of responses' % n(5, 6), big)
    hs = sorted(set(r.printed()))
    rnd = random.Random(vf.sub_seed('C17'))
    rnd.shuffle(hs)
    hs = hs[:n(475, 20000)]
    one('replay of E2EMC orders (%d), every order for trees of <= 3 zones' % len(hs), run('e2e', [dict(json.loads(h), seed=rnd.randrange(1 << 30)) for h in hs], tag='C17mc'))

@check('C18')
def c18(cov):
    import random
    for prof, cnt in [('tcp', n(900, 12000)), ('tcp:fault', n(700, 12000)), ('tcp:garble', n(500, 8000)), ('tcp:pad', n(300, 5000)), ('tcp:all', n(300, 5000)), ('tcp:big', n(24, 400))]:
        f = gen(prof, cnt, tag='C18')
        j = judge('C18', 'JudgeTcp', 'C18', f, note='Note')
        cov['states'] += j['states']
        cov.cases(prof, j, f)
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS NMsgs = %d\n Body = 3\n Export = %s\n'
    big = tlc('TcpMC', cfg % (n(5, 9), 'FALSE') + 'INVARIANTS Whole AllOrErr\nPROPERTY Ends\n')
    r = tlc('TcpMC', cfg % (2, 'TRUE') + 'INVARIANTS Exported\n')
    if r.violated or big.violated: raise vf.Broken('the specification breaks its own property %s' % (r.violated or big.violated))
    cov.model('TcpMC.tla, %d responses, delivered in every way, broken off anywhere' % n(5, 9), big)
    hs = sorted(set(r.printed()))
    rnd = random.Random(vf.sub_seed('C18'))
    cs = [dict(json.loads(h), wp='root', ws=rnd.randrange(1 << 30), seed=rnd.randrange(1 << 30), style=0) for h in hs]
    cs = [dict(c, **{'async': a}) for c in cs for a in (0, 1)]
    f = run('tcp', cs, tag='C18mc')
    j = judge('C18', 'JudgeTcp', 'C18', f, note='Note')
    cov['states'] += j['states']
    cov.cases('replay of TcpMC: every way of cutting two responses at 10 places, broken off at each of them, both clients', j, f)

@check('C19')
def c19(cov):
    import random
    vf.http_server()
    def one(name, f):
        j = judge('C19', 'JudgeHttp', 'C19', f)
        cov['states'] += j['states']
        cov.cases(name, j, f)
    for prof, cnt in [('http', n(420, 12000)), ('http:gate', n(120, 4000)), ('http:max', n(50, 2000)), ('http:fds', n(32, 400)), ('http:fat', n(16, 300))]:
        one(prof, gen(prof, cnt, tag='C19'))
    cfg = 'SPECIFICATION %s\nCHECK_DEADLOCK FALSE\nCONSTANTS N = %d\n Frags = %d\n Slots = %d\n Export = %s\nINVARIANTS OwnAnswer Refused Bounded %s\n'
    a = tlc('HttpMC', cfg % ('Spec', 3, 2, 6, 'FALSE', '') + 'PROPERTY Served\n')
    b = tlc('HttpMC', cfg % ('Fair', 3, n(2, 3), n(2, 3), 'FALSE', '') + 'PROPERTY Served\n')
    r = tlc('HttpMC', cfg % ('Spec', 2, 2, 4, 'TRUE', 'Exported'))
    if a.violated or b.violated or r.violated: raise vf.Broken('the specification breaks its own property')
    cov.model('HttpMC.tla, 3 clients, sockets enough for all', a)
    cov.model('HttpMC.tla, 3 clients, %d sockets' % n(2, 3), b)
    hs = sorted(set(r.printed()))
    rnd = random.Random(vf.sub_seed('C19'))
    rnd.shuffle(hs)
    hs = hs[:n(320, 10 ** 6)]
    one('replay of HttpMC: %d of the histories of 2 clients sending in 2 pieces' % len(hs), run('http', [dict(json.loads(h), seed=rnd.randrange(1 << 30)) for h in hs], tag='C19mc'))
