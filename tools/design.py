#!/usr/bin/env python3
"""Writes the per-property section of DESIGN.md from properties and checks (between the two markers)."""
import ast
import glob
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from properties import P

out = []
for p in P:
    path = glob.glob(os.path.join(HERE, 'checks', p['id'].lower() + '_*.py'))[0]
    tree = ast.parse(open(path).read())
    v = {}
    tests = []
    for node in tree.body:
        if isinstance(node, ast.Assign):
            n = node.targets[0].id if isinstance(node.targets[0], ast.Name) else None
            if n in ('RULE', 'ASSUMPTIONS'):
                v[n] = ast.literal_eval(node.value)
            elif n == 'TESTS':
                for c in node.value.elts:
                    tests.append((c.args[0].id, ast.literal_eval(c.args[1]), ast.literal_eval(c.args[2])))
    out.append('### %s — %s\n' % (p['id'], p['title']))
    out.append('* File: `checks/%s`. Oracle: %s' % (os.path.basename(path), p['level_note']))
    out.append('* Generated: %s' % v['RULE'])
    out.append('* Bounds / assumptions: %s' % ' '.join(v['ASSUMPTIONS']))
    out.append('* Cases (quick / thorough): %s.' % ', '.join('`%s` %d / %d' % t for t in tests))
    out.append('* Out of reach of the tests: %s\n' % p['why_tests_cant'])
path = os.path.join(HERE, 'DESIGN.md')
s = open(path).read()
a, b = '<!-- properties -->\n', '<!-- end -->\n'
i, j = s.index(a) + len(a), s.index(b)
open(path, 'w').write(s[:i] + '\n' + '\n'.join(out) + '\n' + s[j:])
