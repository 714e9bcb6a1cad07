"""Writes MANIFEST.json: the claimed properties are those that have a class in vsim/props."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vsim import props
NA = {
    'C17': 'unit conversions are pure functions of one value: no schedule, clock, I/O, randomness or fault can influence them, so there is nothing to simulate',
    'C18': 'street classification is a pure function of a tag set; no concurrency, time, I/O or fault is involved (its use while decoding a PBF file under all schedules is part of C06)',
    'C19': 'validation of a configuration is a pure function of its text (reading it under faults is part of C05)',
    'C20': 'approximate comparison is a pure function of two numbers; no concurrency, time, I/O or fault is involved',
}
TECH = 'deterministic simulation with fault injection: seeded search over schedules, clocks and I/O faults of the real program, judged against a reference model'
checks = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    if p['id'] not in props.ALL:
        continue
    c = props.ALL[p['id']]
    checks.append({
        'property': p['id'],
        'quick_cmd': 'bash check.sh %s' % p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough bash check.sh %s' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': TECH,
        'level': 'exploration',
        'level_note': 'Held on every simulated run of the seeded search (quick: %d scenarios of one or several processes each, thorough: up to %d), not on all inputs and schedules. Trusts: shim/sim.c (scheduler, clocks, file I/O), the oracle in vsim/, and the stubs: %s. Assumes: %s' % (
            c.counts['quick'], c.counts['thorough'], '; '.join(c.stub), '; '.join(c.assumptions) or 'nothing further') + '.',
    })
m = {'version': 1, 'setup_cmd': 'bash tools/build.sh', 'checks': checks,
     'hooks': {'guard': '--cfg osmgraphing_sim', 'enable': 'tools/build.sh compiles the crate osmgraphing with RUSTC_WRAPPER=tools/rustc-wrap.sh, which adds --cfg osmgraphing_sim',
               'source_commits': ['a3c363e']},
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'One hook in /repo: MAX_BYTE_PER_CHUNK is small under the guard, so that simulated maps are built in several chunks. Otherwise the seams are the C library (LD_PRELOADed simulator), the crate nd-triangulation (replaced by ndtri/) and the child processes. Repairs in /repo are listed in known-findings.jsonl.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
