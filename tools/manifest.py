#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and the texts below."""
import sys, os, json, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE = json.load(open('/verif/tools/notes.json'))
NA = NOTE.get('_not_applicable', {})
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], stdout=subprocess.PIPE).stdout.decode().splitlines()
hooks = [l.split()[0] for l in hooks if 'cfg(dnssec_prover_verif)' in l]
m = dict(version=1, setup_cmd='bash tools/setup.sh', hooks=dict(guard='dnssec_prover_verif', enable='RUSTFLAGS=--cfg=dnssec_prover_verif (the harness crate in /verif/harness depends on /repo by path)', source_commits=hooks), checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        t = NOTE.get(i, {})
        m['checks'].append(dict(property=i, quick_cmd='python3 tools/check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 tools/check.py %s thorough' % i,
            technique=t.get('technique', 'TLA+ specification, TLC; conformance of recorded executions'), level=checks.CHECKS[i]['level'],
            level_note=t.get('note', 'Bounded: see DESIGN.md.')))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'No check yet.')))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
