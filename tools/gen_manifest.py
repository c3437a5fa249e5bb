"""Writes MANIFEST.json: a check for every property that has a rule module, not_applicable for the others."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NA = {
    'C33': 'Whether an iterative, randomly started numerical solver reaches tolerance is a property of runtime trajectories that no static argument in reach bounds.',
    'C34': 'Rounding error of every operation sequence over all inputs would need a floating-point error analysis with input ranges; the value graphs here are over the reals.',
}
NOTE = ('Every obligation is decided on the value graph of the current source: for the stated topologies and settings, symbolic in all joint values, offsets, axes, inputs and '
        'batch size. Equality is decided by normal form where possible, otherwise by random interpretation of the graph (one-sided error: equal graphs are never reported as different). '
        'Trusts the abstract semantics of torch/numpy/lxml operations in sa/torchlib.py and sa/pylib.py; real arithmetic replaces floating point.')
TECH = 'static analysis: abstract interpretation of the Python syntax tree over a value-graph domain; value-graph equality (normal form, random interpretation) and effect/dataflow facts'
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    i = json.loads(l)['id']
    if os.path.exists(os.path.join(V, 'sa', 'rules', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='python3-vt -m sa.run %s' % i, thorough_cmd='python3-vt -m sa.run %s --thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=TECH, level='other', level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'Not built yet.')))
json.dump(dict(version=1, setup_cmd='python3-vt -m compileall -q sa', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
