#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from meta/*.json (run by hand)."""
import json, glob, os
V = os.path.dirname(os.path.abspath(__file__))
props, checks, na = [], [], []
import importlib.util
spec = importlib.util.spec_from_file_location('plist', os.path.join(V, 'plist.py'))
pl = importlib.util.module_from_spec(spec); spec.loader.exec_module(pl)
for p in pl.PROPS:
    props.append({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')})
    assert len(p['title']) <= 80, p['title']
    if 'na' in p:
        na.append({'property': p['id'], 'reason': p['na']})
    else:
        checks.append({'property': p['id'],
                       'quick_cmd': 'python3 /verif/check.py %s --quick' % p['id'],
                       'thorough_cmd': 'python3 /verif/check.py %s --thorough' % p['id'],
                       'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p in props))
m = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'checks': checks, 'not_applicable': na}
open(os.path.join(V, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
