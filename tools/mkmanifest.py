#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'dst'))
import check
NA = {
 'C40': 'Numbers computed by pure functions of their arguments (parametrisations, integrals): no schedule, time, I/O or fault to simulate; whether they follow the cited physics is a numerical question. What a schedule or cache state can do to the tabulated ones is C08.',
 'C41': 'Sampling distributions are statistical statements about pure functions of a random stream; no fault or interleaving is involved and a seeded simulation cannot judge a distribution without false alarms. Dependence on the seed alone is C04/C05.',
 'C42': 'String fragmentation needs PYTHIA, which is not installed here; the simulator replaces it by a stub, so nothing real would be exercised.',
 'C43': 'An accuracy statement about numerical fields as lattice spacing and time step go to zero; nothing in it depends on scheduling, I/O or faults, and a bound usable as a violation does not exist at finite spacing.',
 'C44': 'Algebra of pure functions of codes and quantum numbers, without state, time or I/O.',
 'C45': 'HepMC, ROOT and Rivet are not installed, so these outputs cannot be built here.',
 'C46': 'Statistical and numerical statements about one-time sampling by pure functions; no schedule, time or fault is involved.',
}
TECH = {
 'default': 'deterministic simulation: seeded search over simulated runs of the real program in a simulated machine, oracle over the recorded history',
}
def main():
    checks = []
    for cid in sorted(check.MODULES):
        c = getattr(__import__(check.MODULES[cid]), cid)
        checks.append(dict(property=cid, quick_cmd='python3 dst/check.py %s --tier quick' % cid,
                           thorough_cmd='python3 dst/check.py %s --tier thorough' % cid,
                           technique=getattr(c, 'technique', TECH['default']), level=c.level,
                           level_note=getattr(c, 'note', None) or
                           'Samples: every run is judged in full, but only the seeds explored are covered; generated universes of 20 and 5 species, PYTHIA stubbed (strings off).',
                           evidence_file='evidence/%s.json' % cid))
    na = [dict(property=k, reason=v) for k, v in sorted(NA.items())]
    props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    for p in props:
        if p not in check.MODULES and p not in NA:
            na.append(dict(property=p, reason='Check not built yet.'))
    m = dict(version=1, setup_cmd='./build.sh', hooks=dict(guard='none', enable='none: no hooks in /repo; the simulator takes its seams at the C library boundary', source_commits=[]),
             checks=checks, not_applicable=na,
             notes='See DESIGN.md. Replay: python3 dst/check.py <id> --replay <file>.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
main()
