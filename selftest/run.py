#!/usr/bin/env python3
"""Self-test of the analyses: small source variants, each analysed in a scratch copy (never compiled or run).

cases.py lists (property, 'bug'|'same', title, [(file, old text, new text), ...]); a 'bug' must be reported by the check of that
property, a 'same' (behaviour-preserving edit) must leave it quiet.   usage: run.py [property ...] [-k text]
"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
TUC = '/tmp/vxself-tucache'
os.makedirs(TUC, exist_ok=True)


def one(case):
    prop, kind, title, edits = case
    d = tempfile.mkdtemp(prefix='vxself-')
    try:
        shutil.copytree('/repo/libvoikko', d + '/libvoikko', ignore=shutil.ignore_patterns('autom4te.cache', 'test', '.libs', '*.o'))
        for x in ('voikko-fi', 'tools', 'data'):
            os.symlink('/repo/' + x, d + '/' + x)
        for fn, old, new, *nth in edits:
            p = os.path.join(d, 'libvoikko', fn) if not fn.startswith('/') else d + fn
            if fn.startswith('/') and os.path.islink(d + '/' + fn.split('/')[1]):
                t = fn.split('/')[1]
                os.unlink(d + '/' + t)
                shutil.copytree('/repo/' + t, d + '/' + t)
            s = open(p).read()
            if old not in s:
                return case, None, 'EDIT DOES NOT APPLY: %s: %r' % (fn, old[:60])
            if nth:
                b = s.split(old)
                k = nth[0]
                open(p, 'w').write(old.join(b[:k]) + new + old.join(b[k:]))
            else:
                open(p, 'w').write(s.replace(old, new, 1))
        env = dict(os.environ, VX_REPO=d, VX_CACHE=d, VX_EVIDENCE=d + '/ev', VX_TUCACHE=TUC)
        if '--compile' in sys.argv:
            for fn, *_ in edits:
                if fn.endswith('.cpp'):
                    r = subprocess.run(['g++', '-std=c++17', '-fsyntax-only', '-Wall', '-Werror', '-DHAVE_CONFIG_H', '-I' + VERIF + '/vx/include', '-I' + d + '/libvoikko/src', os.path.join(d, 'libvoikko', fn)], capture_output=True, text=True)
                    if r.returncode:
                        return case, None, 'DOES NOT COMPILE ' + r.stderr[:600]
        r = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), prop], env=env, capture_output=True, text=True)
        return case, r.returncode, r.stdout + r.stderr
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    import cases
    sel = [a for a in sys.argv[1:] if re.match(r'^[A-Z]\d+$', a)]
    k = sys.argv[sys.argv.index('-k') + 1] if '-k' in sys.argv else None
    cs = [c for c in cases.CASES if (not sel or c[0] in sel) and (not k or k in c[2])]
    bad = 0
    with ThreadPoolExecutor(7) as ex:
        for (prop, kind, title, edits), rc, out in ex.map(one, cs):
            ok = rc == (1 if kind == 'bug' else 0)
            if not ok:
                bad += 1
            print('%s %s %s: %s%s' % ('ok  ' if ok else 'FAIL', prop, kind, title, '' if ok and '-v' not in sys.argv else '\n    ' + '\n    '.join(l[:300] for l in out.strip().split('\n')[:8])), flush=True)
    print('%d cases, %d unexpected' % (len(cs), bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
