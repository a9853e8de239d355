#!/usr/bin/env python3
"""Runs the case of a violation again on the current tree, and has it judged again: replay.py FILE
Exit 1 if it still violates, 0 if not. Schedules of sockets may come out differently each time."""
import sys, os, json, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
v = json.load(open(sys.argv[1]))
os.environ.setdefault('VERIF_SEED', '1')
vf.WORK = '%s/build/work/replay.%d' % (vf.V, os.getpid())
os.makedirs(vf.WORK)
op = re.match(r'verify|parse|write|name|json|cmp|signed|resolve|order|anchors|buffer|builder|query|e2e|tcp|http|wasm|doh', v['source']).group(0)
prof = re.search(r'prod-\w+-\w+', v['source'])
if op == 'http': vf.http_server()
case = {k: x for k, x in v['case'].items() if k != 'out'}
f = vf.run(op, [case], profile=prof.group(0) if prof else 'debug')
more = 'CONSTANT IsAnchorKey <- Nobody\n' if v['spec'] == 'JudgeAnchors' else ''
r = vf.tlc(v['spec'], 'SPECIFICATION %s\nCHECK_DEADLOCK FALSE\nINVARIANT %s\n' % ('SpecQ' if op == 'query' else 'Spec', v['invariant'].split()[0]) + more, env={'CASES': f})
print('violates %s' % r.violated if r.violated else 'no violation')
print('was: %s\nis:  %s' % tuple(json.dumps(x)[:600] for x in (v['case'].get('out'), json.loads(open(f).readline())['out'])))
import shutil; shutil.rmtree(vf.WORK)
sys.exit(1 if r.violated else 0)
