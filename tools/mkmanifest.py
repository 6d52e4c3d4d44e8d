#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NOTE = ('TLC decides every clause on every event recorded from the real cache (PyMTL3 simulation and the Verilog '
        'generated from it), and exhaustively on the design model of the specification with small constants. '
        'Conformance is by exploration: executions not driven are not covered. Trusted: TLC, the port driver '
        '(its memory is itself checked against the specification), Verilator for the Verilog back end.')
TECH = 'TLA+ specification; TLC trace validation of recorded cache executions + TLC model checking of the design'
SPECIAL = {}
na = []
p = os.path.join(ROOT, 'tools', 'manifest_special.json')
if os.path.exists(p):
  x = json.load(open(p))
  SPECIAL, na = x.get('checks', {}), x.get('not_applicable', [])
checks = []
for q in props:
  i = q['id']
  if any(n['property'] == i for n in na):
    continue
  s = SPECIAL.get(i, {})
  checks.append(dict(property=i, quick_cmd='python3 harness/check.py %s' % i,
                     thorough_cmd='python3 harness/check.py %s --thorough' % i,
                     evidence_file='evidence/%s.json' % i, technique=s.get('technique', TECH),
                     level=s.get('level', 'model_checking'), level_note=s.get('level_note', NOTE)))
m = dict(version=1, setup_cmd='sh tools/setup.sh', checks=checks, not_applicable=na,
         notes='No hooks: everything is observed at the cache\'s own ports.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
