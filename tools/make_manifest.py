#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from properties import PROPERTIES, NOT_APPLICABLE
root = os.path.dirname(HERE)
NOTE = ("Property-based testing: seeded Hypothesis search over generated cases against an "
        "explicit oracle, with shrinking and replay files. Assurance: no counterexample among "
        "the cases generated (counts in the evidence file); trusts numpy/scipy and the oracle in "
        "pbt/. ")
with open(os.path.join(root, 'properties.jsonl'), 'w') as fid:
  for p in PROPERTIES:
    fid.write(json.dumps({k: p[k] for k in
      ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
skip = {n['property'] for n in NOT_APPLICABLE}
manifest = {
  'version': 1,
  'setup_cmd': 'bash setup.sh',
  'checks': [{
    'property': p['id'],
    'quick_cmd': './check {} --tier quick'.format(p['id']),
    'thorough_cmd': './check {} --tier thorough'.format(p['id']),
    'evidence_file': 'evidence/{}.json'.format(p['id']),
    'technique': 'property-based testing: ' + p['technique'],
    'level': 'exploration',
    'level_note': NOTE + p.get('note', '')} for p in PROPERTIES if p['id'] not in skip],
  'not_applicable': NOT_APPLICABLE,
  'notes': 'No hooks in /repo: the checks import the working tree of /repo directly and use '
           'its public interface only. Commits in /repo are "fix:" commits only, listed in '
           'known_findings.json.'}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as fid:
  json.dump(manifest, fid, indent=1)
  fid.write('\n')
