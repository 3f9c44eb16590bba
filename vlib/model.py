"""Program model of libvoikko: loads what vx extracted from the current working tree of /repo."""
import hashlib, json, os, pickle, subprocess, sys, tempfile, shutil, re
from concurrent.futures import ThreadPoolExecutor
from collections import defaultdict, deque

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VX_REPO', '/repo')
SRC = os.path.join(REPO, 'libvoikko', 'src')
BUILD = os.path.join(VERIF, 'build')
CACHE = os.environ.get('VX_CACHE', BUILD)


class AnalysisError(Exception):
    """The analysis itself cannot answer (vanished anchor, source does not compile, zero instances)."""


sys.setrecursionlimit(20000)


class Fn:
    __slots__ = ('key', 'd', 'nodes', 'vars', 'params', 'blocks', 'entry', 'exit', 'file', 'line', 'name', 'q', 'cls',
                 '_parent', '_order', '_preds', '_defs', 'model', '_calls', '_reach', '__dict__')

    def __init__(self, d, model):
        self.d = d
        self.model = model
        self.key = d['key']
        self.nodes = d['nodes']
        self.vars = d['vars']
        self.params = d['params']
        self.blocks = {b['id']: b for b in d.get('cfg', [])}
        self.entry = d.get('entry')
        self.exit = d.get('exit')
        self.file = d['file']
        self.line = d['line']
        self.name = d['n']
        self.q = d['q']
        self.cls = d.get('cls')
        self._parent = None
        self._preds = None
        self._defs = None
        self._calls = None
        self._reach = None

    def __repr__(self):
        return '<Fn %s>' % self.key

    def n(self, i):
        return self.nodes[i]

    @property
    def parent(self):
        if self._parent is None:
            p = {}
            for nd in self.nodes:
                for c in nd.get('c', ()):
                    p.setdefault(c, nd['i'])
                for h in ('handlers',):
                    for c in nd.get(h, ()):
                        p.setdefault(c, nd['i'])
                for r in ('body', 'cond', 'then', 'else', 'init', 'inc', 'sub', 'val', 'lhs', 'rhs', 'arg', 'obj', 'fnx', 'base', 'idx'):
                    c = nd.get(r)
                    if isinstance(c, int) and c >= 0 and c != nd['i']:
                        p.setdefault(c, nd['i'])
            self._parent = p
        return self._parent

    def ancestors(self, i):
        p = self.parent
        seen = set()
        while i in p and i not in seen:
            seen.add(i)
            i = p[i]
            yield self.nodes[i]

    def walk(self, i):
        """all nodes of the subtree rooted at i (not into lambdas)"""
        st = [i]
        seen = set()
        while st:
            j = st.pop()
            if j in seen or j < 0:
                continue
            seen.add(j)
            nd = self.nodes[j]
            yield nd
            st.extend(nd.get('c', ()))

    @property
    def reachable(self):
        """CFG-reachable blocks from the entry"""
        if self._reach is None:
            s = set()
            st = [self.entry] if self.entry is not None else []
            # catch handlers are reachable from anywhere inside their try block
            st += [b for b in self.d.get('tryblocks', [])]
            while st:
                b = st.pop()
                if b in s or b is None:
                    continue
                s.add(b)
                st.extend(x for x in self.blocks[b]['s'] if x is not None)
            self._reach = s
        return self._reach

    def preds(self):
        if self._preds is None:
            p = defaultdict(list)
            for b in self.blocks.values():
                for i, s in enumerate(b['s']):
                    if s is not None:
                        p[s].append((b['id'], i))
            self._preds = p
        return self._preds

    def calls(self):
        """call / construct / new / delete nodes"""
        if self._calls is None:
            self._calls = [nd for nd in self.nodes if nd.get('callee') or (nd['k'] in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr') and 'args' in nd)]
        return self._calls

    def where(self, nd=None):
        if nd is None:
            return 'libvoikko/src/%s:%d (%s)' % (self.file, self.line, self.q)
        f = nd.get('f') or self.file
        return 'libvoikko/src/%s:%d (%s)' % (f, nd.get('l', self.line), self.q)

    # ---- expression helpers
    def strip(self, i):
        """through explicit casts that keep the pointer/value identity"""
        while True:
            nd = self.nodes[i]
            if nd['k'] in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr', 'CXXFunctionalCastExpr', 'CXXDynamicCastExpr') and 'sub' in nd:
                i = nd['sub']
            elif nd['k'] in ('CXXDefaultArgExpr',) and nd.get('c'):
                i = nd['c'][0]
            else:
                return i

    def var(self, i):
        """local variable/parameter index referenced by expression i, or None"""
        nd = self.nodes[self.strip(i)]
        if nd['k'] == 'DeclRefExpr' and nd.get('dk') == 'var':
            return nd['v']
        return None

    def path(self, i):
        """access path of an expression: nested tuples"""
        i = self.strip(i)
        nd = self.nodes[i]
        k = nd['k']
        if k == 'DeclRefExpr':
            if nd.get('dk') == 'var':
                return ('v', nd['v'])
            if nd.get('dk') == 'global':
                return ('g', nd['g'])
            return ('x', nd.get('n'))
        if k == 'CXXThisExpr':
            return ('this',)
        if k == 'MemberExpr':
            if nd.get('mk') == 'field':
                return ('f', self.path(nd['base']), nd['m'])
            if nd.get('mk') == 'global':
                return ('g', nd['g'])
            return ('x', nd.get('m'))
        if k == 'UnaryOperator' and nd['op'] == '*':
            return ('d', self.path(nd['sub']))
        if k == 'UnaryOperator' and nd['op'] == '&':
            return ('a', self.path(nd['sub']))
        if k == 'ArraySubscriptExpr':
            return ('e', self.path(nd['base']), self.const(nd['idx']))
        if k == 'CXXOperatorCallExpr' and nd.get('op') == '[]':
            return ('e', self.path(nd['obj']) if 'obj' in nd else ('x', None), None)
        return ('x', i)

    def const(self, i):
        nd = self.nodes[self.strip(i)]
        if 'ev' in nd:
            return nd['ev']
        nd = self.nodes[i]
        return nd.get('ev')

    def isnull(self, i):
        nd = self.nodes[i]
        if nd.get('nul'):
            return True
        nd = self.nodes[self.strip(i)]
        if nd.get('nul') or nd['k'] in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return True
        return nd.get('ev') == 0 and nd['k'] == 'IntegerLiteral'

    def root(self, p):
        while p[0] in ('f', 'd', 'a', 'e'):
            p = p[1]
        return p

    def vname(self, v):
        return self.vars[v]['n']


class Model:
    def __init__(self):
        self.fns = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.decls = {}
        self.macros = {}
        self.skipped = []
        self.tus = []

    # --- building
    def add_tu(self, src, d):
        self.tus.append(src)
        for f in d['functions']:
            if f['key'] not in self.fns:
                self.fns[f['key']] = Fn(f, self)
        for r in d['records']:
            self.records.setdefault(r['n'], r)
        for e in d['enums']:
            k = e['n'] if 'anonymous' not in e['n'] and 'unnamed' not in e['n'] else '%s@%s:%d' % (e['n'], e['file'], e['line'])
            self.enums.setdefault(k, e)
        for g in d['globals']:
            o = self.globals.get(g['key'])
            if o is None or (g['def'] and not o['def']) or ('init' in g and 'init' not in o):
                self.globals[g['key']] = g
        for x in d['decls']:
            self.decls.setdefault(x['key'], []).append(x)
        for m in d.get('macros', []):
            self.macros.setdefault(m['n'], m)

    def finish(self):
        # class hierarchy
        self.derived = defaultdict(set)
        for r in self.records.values():
            for b in r['bases']:
                self.derived[b.replace('class ', '').replace('struct ', '')].add(r['n'])
        # overriders: method key -> set of overriding keys (transitively)
        direct = defaultdict(set)
        self.fdecl = {}
        for k, ds in self.decls.items():
            for x in ds:
                self.fdecl.setdefault(k, x)
                for o in x.get('over', ()):
                    direct[o].add(k)
        self.overriders = {}
        for k in list(direct):
            s = set()
            st = [k]
            while st:
                x = st.pop()
                for y in direct.get(x, ()):
                    if y not in s:
                        s.add(y)
                        st.append(y)
            self.overriders[k] = s
        # C linkage: a declaration outside the namespace names the same function
        alias = {}
        for k in self.fns:
            h, sep, t = k.partition('(')
            if '::' in h and sep and self.fns[k].d.get('vis') != 'internal' and not self.fns[k].cls:
                alias.setdefault(h.split('::')[-1] + sep + t, []).append(k)
        alias = {a: ks[0] for a, ks in alias.items() if len(ks) == 1 and a not in self.fns}
        for f in self.fns.values():
            for nd in f.nodes:
                if nd.get('callee') in alias:
                    nd['callee'] = alias[nd['callee']]
                if nd.get('fn') in alias:
                    nd['fn'] = alias[nd['fn']]
        self.by_name = defaultdict(list)
        for f in self.fns.values():
            self.by_name[f.name].append(f)
        self.by_q = defaultdict(list)
        for f in self.fns.values():
            self.by_q[f.q].append(f)
        self._cg = None
        self._rcg = None
        self.ctor_of = defaultdict(list)
        for f in self.fns.values():
            if f.d.get('ctor'):
                self.ctor_of[f.cls].append(f)
        return self

    # --- queries
    def targets(self, nd):
        """possible callee functions (Fn with a body) of a call node"""
        k = nd.get('callee')
        if not k:
            return []
        out = []
        if nd.get('virt'):
            ks = {k} | self.overriders.get(k, set())
        else:
            ks = {k}
        for x in sorted(ks):
            f = self.fns.get(x)
            if f:
                out.append(f)
        return out

    def target_keys(self, nd):
        k = nd.get('callee')
        if not k:
            return set()
        if nd.get('virt'):
            return {k} | self.overriders.get(k, set())
        return {k}

    def sub_targets(self, fn):
        """[(node, callee Fn)] including constructors, destructors of deleted objects and automatic objects, lambdas"""
        out = []
        for nd in fn.nodes:
            if nd.get('callee'):
                for t in self.targets(nd):
                    out.append((nd, t))
            if nd['k'] == 'CXXDeleteExpr' and nd.get('dtor'):
                ks = {nd['dtor']}
                if nd.get('virt'):
                    ks |= self.overriders.get(nd['dtor'], set())
                for k in ks:
                    if k in self.fns:
                        out.append((nd, self.fns[k]))
            if nd['k'] == 'LambdaExpr' and nd.get('lambda') in self.fns:
                out.append((nd, self.fns[nd['lambda']]))
            if nd['k'] == 'DeclRefExpr' and nd.get('dk') == 'func' and nd['fn'] in self.fns:
                out.append((nd, self.fns[nd['fn']]))   # address taken or called
        for b in fn.blocks.values():
            for e in b['e']:
                if isinstance(e, dict) and 'dtor' in e and e.get('fn') in self.fns:
                    out.append((fn.nodes[fn.d['body']], self.fns[e['fn']]))
        # implicit member destruction is covered by the implicit destructor bodies vx serialises
        return out

    @property
    def cg(self):
        if self._cg is None:
            self._cg = {f.key: self._dedup(self.sub_targets(f)) for f in self.fns.values()}
        return self._cg

    @staticmethod
    def _dedup(l):
        seen = {}
        for nd, t in l:
            seen.setdefault(t.key, (nd, t))
        return list(seen.values())

    def reach(self, roots, stop=()):
        """functions reachable in the call graph; returns {key: (parent key, call node)}"""
        par = {}
        dq = deque()
        for r in roots:
            k = r.key if isinstance(r, Fn) else r
            if k in self.fns and k not in par:
                par[k] = None
                dq.append(k)
        while dq:
            k = dq.popleft()
            if k in stop:
                continue
            for nd, t in self.cg[k]:
                if t.key not in par:
                    par[t.key] = (k, nd)
                    dq.append(t.key)
        return par

    def chain(self, par, k):
        out = []
        while k is not None:
            out.append(self.fns[k].q)
            k = par[k][0] if par[k] else None
        return ' <- '.join(out)

    def exported(self):
        return sorted((f for f in self.fns.values() if f.d['exported']), key=lambda f: f.key)

    def api(self, name):
        fs = [f for f in self.by_name.get(name, ()) if f.d['exported']]
        if not fs:
            raise AnalysisError('public function %s is not defined in the library sources' % name)
        return fs[0]

    def bases(self, cls):
        out = []
        st = [cls]
        while st:
            c = st.pop()
            r = self.records.get(c)
            if not r:
                continue
            for b in r['bases']:
                if b not in out:
                    out.append(b)
                    st.append(b)
        return out

    def subclasses(self, cls):
        out = set()
        st = [cls]
        while st:
            for d in self.derived.get(st.pop(), ()):
                if d not in out:
                    out.add(d)
                    st.append(d)
        return out


def _hash_tree():
    h = hashlib.sha256()
    for base in (SRC, os.path.join(VERIF, 'vx'), os.path.join(VERIF, 'vlib')):
        for dp, dn, fnm in sorted(os.walk(base)):
            dn.sort()
            for f in sorted(fnm):
                if base.endswith('vlib') and f != 'model.py':
                    continue
                if f.endswith(('.cpp', '.hpp', '.h', '.py')):
                    p = os.path.join(dp, f)
                    h.update(p.encode() + b'\0')
                    h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]


# optional back ends whose libraries are not installed: /opt/vp/build.sh does not compile them either
NOT_BUILT = {'grammar/CgRuleEngine.cpp', 'grammar/CgGrammarChecker.cpp', 'morphology/LttoolboxAnalyzer.cpp', 'setup/V4DictionaryLoader.cpp'}
ARGS = ['-std=c++17', '-DHAVE_CONFIG_H', '-I' + os.path.join(VERIF, 'vx', 'include'), '-I' + SRC, '-fvisibility=hidden', '-pthread', '-w']


def extract_one(src, out, extra=(), root=None):
    r = subprocess.run([os.path.join(BUILD, 'vx'), '--root=' + (root or SRC), '--out=' + out, src, '--'] + list(extra) + ARGS,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def build_tool():
    r = subprocess.run(['bash', os.path.join(VERIF, 'vx', 'build.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisError('extractor build failed:\n' + r.stdout[-2000:])


def load(use_cache=True):
    build_tool()
    os.makedirs(BUILD, exist_ok=True)
    cache = os.path.join(CACHE, 'model-%s.json' % _hash_tree())
    if use_cache and os.path.exists(cache):
        try:
            raw = json.load(open(cache))
            return _assemble(raw)
        except Exception:
            pass
    srcs = []
    for dp, dn, fnm in os.walk(SRC):
        for f in fnm:
            rel = os.path.relpath(os.path.join(dp, f), SRC)
            if f.endswith('.cpp') and rel not in NOT_BUILT:
                srcs.append(os.path.join(dp, f))
    srcs.sort()
    if len(srcs) < 40:
        raise AnalysisError('only %d source files under %s' % (len(srcs), SRC))
    tmp = tempfile.mkdtemp(prefix='vx-', dir=CACHE)
    raw = {'tus': [], 'skipped': sorted(NOT_BUILT)}
    try:
        hdr = os.path.join(tmp, 'public_header.cpp')
        with open(hdr, 'w') as f:
            f.write('#include "voikko.h"\n')
        jobs = [(s, os.path.join(tmp, '%d.json' % i)) for i, s in enumerate(srcs + [hdr])]
        tuc = os.environ.get('VX_TUCACHE')     # self-test only: reuse of unchanged translation units
        if tuc:
            hh = hashlib.sha256()
            for dp, dn, fnm in sorted(os.walk(SRC)):
                dn.sort()
                for f in sorted(fnm):
                    if f.endswith(('.hpp', '.h')):
                        hh.update(open(os.path.join(dp, f), 'rb').read())
            hh.update(open(os.path.join(VERIF, 'vx', 'vx.cpp'), 'rb').read())

            def cached(j):
                h = hh.copy()
                h.update(os.path.relpath(j[0], SRC if j[0] != hdr else tmp).encode() + open(j[0], 'rb').read())
                c = os.path.join(tuc, h.hexdigest()[:32])
                if os.path.exists(c):
                    shutil.copyfile(c, j[1])
                    return 0, ''
                r = extract_one(*j)
                if r[0] == 0 and os.path.exists(j[1]):
                    shutil.copyfile(j[1], c + '.%d' % os.getpid())
                    os.replace(c + '.%d' % os.getpid(), c)
                return r
            one = cached
        else:
            def one(j):
                return extract_one(*j)
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            res = list(ex.map(one, jobs))
        for (s, o), (rc, log) in zip(jobs, res):
            rel = os.path.relpath(s, SRC) if s != hdr else 'voikko.h'
            if rc != 0 or not os.path.exists(o):
                raise AnalysisError('cannot parse %s:\n%s' % (rel, log[-1500:]))
            raw['tus'].append([rel, json.load(open(o))])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # drop duplicate function bodies from headers before caching
    seen = set()
    for rel, d in raw['tus']:
        keep = []
        for f in d['functions']:
            if f['key'] not in seen:
                seen.add(f['key'])
                keep.append(f)
        d['functions'] = keep
        for what, kf in (('records', lambda r: r['n']), ('decls', lambda r: r['key'] + '@' + r['file'] + (':b' if r['body'] else '')),
                         ('globals', lambda r: r['key'] + str(r['def']) + str('init' in r)), ('macros', lambda r: r['n'])):
            keep = []
            for r in d.get(what, []):
                t = (what, kf(r))
                if t not in seen:
                    seen.add(t)
                    keep.append(r)
            d[what] = keep
    for f in os.listdir(CACHE):
        if f.startswith('model-') and f.endswith('.json'):
            try:
                os.unlink(os.path.join(CACHE, f))
            except OSError:
                pass
    t = cache + '.%d.tmp' % os.getpid()
    with open(t, 'w') as f:
        json.dump(raw, f)
    os.replace(t, cache)
    return _assemble(raw)


def _assemble(raw):
    m = Model()
    m.skipped = raw['skipped']
    for rel, d in raw['tus']:
        m.add_tu(rel, d)
    return m.finish()
