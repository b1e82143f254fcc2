#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from checks import CHECKS
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 tools/setup.py', hooks=dict(guard='VF_NONE', enable='no hooks: the sources are compiled as they are; allocation, descriptor, stdio, lock and zlib references of the object files are renamed with objcopy', source_commits=[]),
         checks=[dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='python3 check.py %s --thorough' % p, evidence_file='evidence/%s.json' % p,
                      technique=CHECKS[p]['technique'], level=CHECKS[p]['level'], level_note=CHECKS[p]['level_note']) for p in props if p in CHECKS],
         not_applicable=[dict(property=p, reason='the check is not written yet') for p in props if p not in CHECKS])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
