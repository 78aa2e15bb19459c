#!/usr/bin/env python3
"""which functions of the repository no obligation looks at"""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seen = {}
for p in glob.glob(ROOT + '/evidence/P*.json'):
    if 'violations' in p:
        continue
    e = json.load(open(p))
    for f in e['coverage'].get('functions_analysed', []) + \
            e['coverage'].get('anchors', []):
        seen.setdefault(f, set()).add(e['property'])
for p in sorted(glob.glob('/repo/ghedt/**/*.py', recursive=True)):
    if '/examples/' in p:
        continue
    mod = p[len('/repo/'):-3].replace('/', '.')

    def walk(node, pre):
        for n in node.body:
            if isinstance(n, ast.ClassDef):
                walk(n, pre + '.' + n.name)
            elif isinstance(n, ast.FunctionDef):
                q = pre + '.' + n.name
                print('%-90s %s' % (q, ' '.join(sorted(seen.get(q, ())))
                                    or '--'))
    walk(ast.parse(open(p).read()), mod)
