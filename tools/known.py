#!/usr/bin/env python3
"""Writes known_findings.json: repaired defects (fixed) and findings that stay (known)."""
import json, subprocess, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def h(m):
    r = subprocess.run(['git', '-C', '/repo', 'log', '--fixed-strings', '--format=%h %s', '--grep', 'fix: ' + m], capture_output=True, text=True).stdout.strip().splitlines()
    assert len(r) == 1, (m, r)
    return r[0].split()[0]
k = []
def fixed(p, m, what):
    c = h(m)
    k.append(dict(property=p, status='fixed', commit=c, what=what, line=f'fixed: property={p} {c} {what}'))
def known(p, cls, match, what):
    k.append({'property': p, 'status': 'known', 'class': cls, 'match': match, 'what': what})
exec(open(os.path.join(V, 'tools', 'known_list.py')).read())
json.dump(k, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
