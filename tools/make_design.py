#!/usr/bin/env python3
"""Writes the per-property table of DESIGN.md from the sub-tests (names, budgets, descriptions); run with /opt/venv/bin/python."""
import importlib, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import core
NOTES = json.load(open(os.path.join(ROOT, 'tools', 'design_notes.json')))
out = []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    importlib.import_module('vf.props.' + pid.lower())
    out.append(f'### {pid} — {p["title"]}\n')
    n = NOTES[pid]
    out.append(f'*Oracle.* {n["oracle"]}  \n*Generated.* {n["gen"]}  \n*Beyond the tests.* {p["why_tests_cant"]}\n')
    out.append('| sub-test | quick | thorough | decides |\n|---|---|---|---|')
    for s in core.SUBS[pid]:
        out.append(f'| {s.name} | {s.quick} | {s.thorough} | {" ".join(s.doc.split()).replace("|", "/")} |')
    out.append('')
path = os.path.join(ROOT, 'DESIGN.md')
text = open(path).read()
a, b = '<!-- properties:begin -->', '<!-- properties:end -->'
i, j = text.index(a) + len(a), text.index(b)
open(path, 'w').write(text[:i] + '\n\n' + '\n'.join(out) + '\n' + text[j:])
