#!/usr/bin/env python3
"""Applies each mechanical behaviour-preserving rewrite to the whole library in a scratch copy and runs all checks on it: they must stay quiet.
usage: run.py [mode ...] [--props C01,C02] [--keep]"""
import glob, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, VERIF)
from vlib import model
MODES = ['noop', 'ret', 'ifswap', 'cond', 'andsplit', 'elserest', 'forwhile', 'whiletrue', 'incr', 'nullcmp', 'eqswap', 'declsplit', 'rename', 'ternary', 'delegate']
TOOL = os.path.join(VERIF, 'build', 'refac')


def build():
    src = os.path.join(HERE, 'refac.cpp')
    if not os.path.exists(TOOL) or os.path.getmtime(src) > os.path.getmtime(TOOL):
        subprocess.check_call('g++ -O0 $(llvm-config-18 --cxxflags) -fno-rtti -DNDEBUG -w %s -o %s -L"$(llvm-config-18 --libdir)" -l:libclang-cpp.so.18.1 -lLLVM-18' % (src, TOOL), shell=True)


def mode(md, props, keep):
    d = tempfile.mkdtemp(prefix='vxref-')
    shutil.copytree('/repo/libvoikko', d + '/libvoikko', ignore=shutil.ignore_patterns('autom4te.cache', 'test', '.libs', '*.o'))
    for x in ('voikko-fi', 'tools', 'data'):
        os.symlink('/repo/' + x, d + '/' + x)
    S = d + '/libvoikko/src'
    args = ['-std=c++17', '-DHAVE_CONFIG_H', '-I' + VERIF + '/vx/include', '-I' + S, '-fvisibility=hidden', '-pthread', '-w']
    srcs = [os.path.join(dp, f) for dp, dn, fn in os.walk(S) for f in fn if f.endswith('.cpp') and os.path.relpath(os.path.join(dp, f), S) not in model.NOT_BUILT]

    def one(s):
        r = subprocess.run([TOOL, md, s, '--'] + args, capture_output=True)
        return s, r
    hdr = {}
    n = 0
    outs = []
    with ThreadPoolExecutor(8) as ex:
        for s, r in ex.map(one, srcs):
            for l in r.stderr.decode(errors='replace').split('\n'):
                t = l.split('\t')
                if t[0] == 'HDR':
                    hdr.setdefault(os.path.realpath(t[1]), set()).add((int(t[2]), t[3]))
                elif t[0] == 'COUNT':
                    n += int(t[1])
            if r.returncode:
                print(md, s, r.stderr.decode()[:300])
            outs.append((s, r.stdout))
    for s, o in outs:
        if o:
            open(s, 'wb').write(o)
    for f, es in hdr.items():
        b = open(f, 'rb').read()
        for off, t in sorted(es, reverse=True):
            b = b[:off] + t.encode() + b[off:]
        open(f, 'wb').write(b)

    def comp(s):
        r = subprocess.run(['g++', '-fsyntax-only'] + args + [s], capture_output=True, text=True)
        return s, r
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for s, r in ex.map(comp, srcs):
            if r.returncode:
                bad += 1
                print('%s: %s does not compile: %s' % (md, os.path.relpath(s, S), (re.findall(r'error: .*', r.stderr) or [''])[0][:160]))
                shutil.copyfile(s.replace(d, '/repo'), s)     # left as it was
    print('%s: %d rewrites, %d files restored' % (md, n, bad), flush=True)
    env = dict(os.environ, VX_REPO=d, VX_CACHE=d, VX_EVIDENCE=d + '/ev')
    first = True

    def chk(p):
        return p, subprocess.run([sys.executable, VERIF + '/check.py', p], env=env, capture_output=True, text=True)
    res = [chk(props[0])]
    with ThreadPoolExecutor(8) as ex:
        res += list(ex.map(chk, props[1:]))
    for p, r in res:
        if r.returncode:
            print('ALARM %s %s rc=%d\n    %s' % (md, p, r.returncode, '\n    '.join(x[:260] for x in (r.stdout + r.stderr[-1500:]).strip().split('\n')[-8:])), flush=True)
    if keep:
        print('kept', d)
    else:
        shutil.rmtree(d)


def main():
    build()
    props = sorted(os.path.basename(p)[:-3] for p in glob.glob(VERIF + '/rules/C*.py'))
    ms = []
    a = sys.argv[1:]
    while a:
        x = a.pop(0)
        if x == '--props':
            props = a.pop(0).split(',')
        elif not x.startswith('-'):
            ms.append(x)
    props = [p for p in props if p not in ('C11', 'C12')]
    for md in ms or MODES:
        mode(md, props, '--keep' in sys.argv)


main()
