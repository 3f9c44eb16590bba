#!/usr/bin/env python3
"""Mutation sweep: each line that matches a pattern is changed in a scratch copy and the given check is run (nothing is compiled or run).
usage: mutate.py PROP REGEX REPLACEMENT [file regex]     prints the mutants that the check does not report"""
import os, re, sys
from concurrent.futures import ThreadPoolExecutor
import run as R
prop, rx, new = sys.argv[1:4]
frx = sys.argv[4] if len(sys.argv) > 4 and not sys.argv[4].startswith('-') else '.'
cases = []
for dp, dn, fn in os.walk('/repo/libvoikko/src'):
    for f in sorted(fn):
        p = os.path.join(dp, f)
        rel = os.path.relpath(p, '/repo/libvoikko')
        if not f.endswith(('.cpp', '.hpp')) or '/tools/' in p or not re.search(frx, rel) or re.search(r'Cg|Lttoolbox|V4Dict', f):
            continue
        src = open(p).read()
        lines = src.split('\n')
        for i, l in enumerate(lines):
            if re.search(rx, l) and not l.strip().startswith(('*', '//')):
                # context makes the edit unique
                k = 0
                while src.count('\n'.join(lines[max(0, i - k):i + 1 + k])) > 1:
                    k += 1
                a, b = max(0, i - k), i + 1 + k
                mut = lines[a:i] + [re.sub(rx, new, l)] + lines[i + 1:b]
                cases.append((prop, 'bug', '%s:%d %s' % (rel, i + 1, l.strip()), [(rel, '\n'.join(lines[a:b]), '\n'.join(mut))]))
miss = 0
with ThreadPoolExecutor(7) as ex:
    for c, rc, out in ex.map(R.one, cases):
        if rc != 1:
            miss += 1
            print('MISSED' if rc == 0 else 'rc=%s' % rc, c[2], '' if rc == 0 else out[-300:], flush=True)
        elif '-v' in sys.argv:
            print('caught', c[2], '|', out.split('\n')[0][:150])
print(len(cases), 'mutants,', miss, 'not reported')
