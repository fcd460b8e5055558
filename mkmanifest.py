#!/usr/bin/env python3
"""write MANIFEST.json from properties.jsonl and the contract modules"""
import ast
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = 'contract-based deductive verification: verification conditions ' \
       'generated from the current source of /repo, discharged by z3/cvc5'
NA = {}


def const(tree, name, default):
    for s in tree.body:
        if isinstance(s, ast.Assign) and getattr(
                s.targets[0], 'id', '') == name:
            try:
                return ast.literal_eval(s.value)
            except ValueError:
                return default
    return default


checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    f = os.path.join(HERE, 'contracts', i + '.py')
    if not os.path.exists(f):
        na.append({'property': i, 'reason': NA.get(
            i, 'no contract has been completed for it yet')})
        continue
    tree = ast.parse(open(f).read())
    checks.append({
        'property': i,
        'quick_cmd': 'python3-vt check.py %s --tier quick' % i,
        'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
        'technique': const(tree, 'TECHNIQUE', TECH),
        'level': const(tree, 'LEVEL', 'proof'),
        'level_note': const(tree, 'NOTE', (ast.get_docstring(tree) or '') +
                            ' Assumes real arithmetic for floats and the '
                            'library contracts listed in the evidence.')})
json.dump({'version': 1,
           'setup_cmd': 'python3-vt -m compileall -q engine contracts '
                        'check.py',
           'checks': checks, 'not_applicable': na,
           'notes': 'check.py generates the obligations from /repo on every '
                    'run; see DESIGN.md'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
