#!/usr/bin/env python3
"""Writes the list of repaired defects into /verif/KNOWN_FINDINGS (keeps its finding: lines)."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {'cfe4ca1': 'C01', '0a96e2a': 'C02', 'be8f23c': 'C02', '56576e0': 'C17', 'f69fa40': 'C16', '1ab40a3': 'C14', 'b5dba63': 'C11', 'b7ee80d': 'C15',
         '9a708f8': 'C15', 'ed8b494': 'C13', '580b4f5': 'C16', '42f7022': 'C22', '1bbbfd2': 'C22', '4a74237': 'C22', 'd299429': 'C05', '0f11226': 'C06',
         'ab4526b': 'C15', '9c7d3a2': 'C11', '19ae845': 'C10', '5fe24d7': 'C17', 'c83db7a': 'C16', '72a5a05': 'C15', '3163ed9': 'C04', '502d50f': 'C12',
         'd3abdd0': 'C12', '68b29b6': 'C12', '5d79969': 'C19', '8acd756': 'C20', '120ff5e': 'C20', 'b4ae2b5': 'C20', 'db133ea': 'C19', '809951b': 'C19',
         '91006c2': 'C19', 'baf0461': 'C19', '80edaa2': 'C19', 'b826fe2': 'C20', 'ea9fa44': 'C20', '228e424': 'C19', 'a1d200c': 'C19', '21f02ff': 'C20',
         '35738a1': 'C20', 'fcf87be': 'C20', '25e1613': 'C20', 'edf8c98': 'C20', 'c2d370c': 'C20', 'e49b690': 'C20', '4e62610': 'C07',
         'a871585': 'C23', 'a0b35ee': 'C23', '1288986': 'C09', 'c019bfa': 'C09', '0664e36': 'C12', 'f6ad0f3': 'C20', '1add0ee': 'C19', 'ce6d180': 'C12'}
p = os.path.join(V, 'KNOWN_FINDINGS')
old = [l for l in open(p).read().splitlines() if l.startswith('finding:')] if os.path.exists(p) else []
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
out = ['# finding: property=<id> sig=<signature> match="<text in the report>" -- <what fails>     (not repaired; reported as KNOWN-FINDING)',
       '# fixed: property=<id> <commit in /repo> <what failed>                                   (repaired; suppresses nothing)'] + old
for l in log:
    h, s = l.split(' ', 1)
    if s.startswith('fix:'):
        out.append('fixed: property=%s %s %s' % (PROPS[h], h, s[5:]))
open(p, 'w').write('\n'.join(out) + '\n')
