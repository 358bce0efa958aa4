#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list (every property is claimed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'property-based testing: generated layouts, exact round trip to the generating points',
 'C02': 'model-based testing of operation histories: snapshots of every object, differential against fresh objects',
 'C03': 'property-based testing: differential against indexing a Python list',
 'C04': 'stateful model-based testing: edit histories against a Python list',
 'C05': 'property-based testing: differential against a point-by-point loop',
 'C06': 'stateful model-based testing: dimension edits against a list of columns',
 'C07': 'property-based testing: reference filters, validity predicate and idempotence',
 'C08': 'stateful model-based testing: histories on (point, parameter) pairs',
 'C09': 'property-based testing: exact rational reference and metamorphic relations',
 'C10': 'property-based testing: exact rational finite differences and algebraic laws',
 'C11': 'property-based testing: exact rational Gram-Schmidt reference and analytic curves',
 'C12': 'property-based testing: reference formulas, analytic curves and metamorphic relations',
 'C13': 'property-based testing: differential between views and arrays of the curve',
 'C14': 'property-based testing: component-wise reference and independent metric formulas',
 'C15': 'property-based testing: exact rational reference and round trip of the parameter',
 'C16': 'property-based testing: exact rational geometric predicates',
 'C17': 'property-based testing: exact interval intersection on a line',
 'C18': 'property-based testing: exact rational minimum distance',
 'C19': 'property-based testing: exact rational segment intersection',
 'C20': 'property-based testing: exact all-pairs reference and differential against single pairs',
 'C21': 'property-based testing: exact all-pairs distances, cluster reference',
 'C22': 'property-based testing: independent reference implementation of each scheme, metamorphic relations',
 'C23': 'property-based testing: reference grids and validity predicates',
 'C24': 'property-based testing: direct convolution and local least-squares references, metamorphic relations',
 'C25': 'property-based testing: parametric and implicit equations of the curves',
 'C26': 'stateful model-based testing: registry histories against dictionaries',
 'C27': 'property-based testing: exact affine rank and orientation',
 'C28': 'generated sequences of invalid requests and raising callbacks (fault injection), invariance oracle',
 'C29': 'property-based testing: the drawn matplotlib artists against the curve',
 'C30': 'metamorphic testing: runs on transformed inputs against transformed results',
 'C31': 'differential property-based testing: stored or made in any way against the plain float64 curve',
 'C32': 'metamorphic property-based testing: whole curves against their parts',
}
NOTE = ('Held on every generated case of the run (counts, labels and samples in the evidence file); no claim beyond '
        'the explored cases. Trusted: Hypothesis, the reference computations and tolerances in /verif/vf, numpy, and scipy '
        'where the reference uses it (see DESIGN.md).')
checks = []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    pid = json.loads(line)['id']
    checks.append({'property': pid, 'quick_cmd': f'python3 check.py {pid} --tier quick',
                   'thorough_cmd': f'python3 check.py {pid} --tier thorough',
                   'technique': T[pid], 'level': 'exploration', 'level_note': NOTE})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks are used: the checks import the working tree of /repo as it is. Interpreter: /opt/venv/bin/python.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks')
