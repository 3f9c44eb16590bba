"""Life cycle of a handle and its components.

The components of a handle (the members of VoikkoHandle that point to objects) are followed through the functions that create, replace and
release them, along every path including the exception paths: uninitialised, null, live, terminated, deleted.
Rule 1: voikkoInit returns a handle only with every component live, and a null handle only after every component created so far has been
terminated and deleted, and sets *error accordingly.
Rule 2: option setting leaves every component live, replaces one only after terminating and deleting it, on every path.
Rule 3: voikkoTerminate terminates and deletes every component and the handle.
Rule 4: messages of dictionary errors are string literals (they outlive the exception).
Rule 5: a transducer is terminated (unmapped) before it is deleted.
"""
from collections import deque
from rules import common as C
from vlib.flow import dominates
from vlib.model import AnalysisError
from vlib.sym import Sym
from vlib.throws import Throws

RULE = 'typestate of each handle component (uninitialised, null, live, terminated, deleted) along all paths of creation, replacement and termination, exception edges included, helpers inlined'
ASSUMPTIONS = ['memory allocation does not fail', 'component factories return an object or throw', 'handles are passed to voikkoTerminate once and not used afterwards']

PROP = {
    'id': 'C18', 'title': 'Handles are created and released completely, also when initialisation fails',
    'statement': 'voikkoInit either returns a handle with all its components (analyzer, speller, suggestion generator, hyphenator, grammar checker, cache) created and *error set to null, or returns null with *error set to a message that '
                 'stays valid, after terminating and deleting every component that had been created. Setting an option leaves every component of the handle usable, whether or not the call succeeds, and a component that is replaced is '
                 'terminated and deleted. voikkoTerminate terminates and deletes every component once. Components that hold files or mappings are always terminated before they are deleted.',
    'quantifier': {'over': ['histories', 'configurations', 'crash points'], 'text': 'all sequences of initialisation, option setting and termination, all points at which creating a component can fail'},
    'why_tests_cant': 'The tests initialise with valid dictionaries; failure of each component creation in turn, and replacement of components, leak or dangle silently.',
    'anchors': {'files': ['libvoikko/src/setup/setup.cpp', 'libvoikko/src/setup/setup.hpp', 'libvoikko/src/setup/DictionaryException.cpp', 'libvoikko/src/fst/Transducer.cpp'],
                'mechanism': [{'name': 'component creation, catch clause, termination', 'where': 'libvoikko/src/setup/setup.cpp'}],
                'observe_at': ['voikkoInit', 'voikkoSetBooleanOption', 'voikkoSetIntegerOption', 'voikkoTerminate']}}

H = 'VoikkoHandle'
NAME = {'U': 'uninitialised', 'N': 'null', 'L': 'live', 'T': 'terminated', 'D': 'deleted'}


class Life:
    def __init__(self, m, rep):
        self.m = m
        self.rep = rep
        self.T = Throws(m)
        self.made = {}
        self.sym = Sym(m)
        rec = m.records.get(H)
        if rec is None:
            raise AnalysisError('no record ' + H)
        self.fields = {}
        for fl in rec['fields']:
            t = fl['t'].rstrip()
            if t.endswith('*') and 'char' not in t:
                self.fields[fl['q']] = t.rstrip('* ').strip()
        self.written = set()
        for f in m.fns.values():
            for nd in f.nodes:
                if nd['k'] == 'BinaryOperator' and nd['op'] == '=':
                    p = f.path(nd['lhs'])
                    if p[0] == 'f' and p[2] in self.fields:
                        v = f.nodes[f.strip(nd['rhs'])]
                        if not f.isnull(nd['rhs']):
                            self.written.add(p[2])
        self.fields = {q: t for q, t in self.fields.items() if q in self.written}
        self.term = {q for q, t in self.fields.items() if self.has_terminate(t)}

    def has_terminate(self, t):
        return any(f.name == 'terminate' and f.cls and (f.cls == t or t in self.m.bases(f.cls)) for f in self.m.fns.values())

    def comp(self, f, i, hs):
        """component that expression i denotes (member of the handle, directly or through a local)"""
        i = f.strip(i)
        p = f.path(i)
        if p[0] == 'f' and p[2] in self.fields and p[1][0] == 'v' and p[1][1] in hs:
            return p[2]
        if p[0] == 'f' and p[2] in self.fields and p[1][0] == 'd' and p[1][1][0] == 'v' and p[1][1][1] in hs:
            return p[2]
        v = f.var(i)
        if v is not None:
            sd = self.sym.single_defs(f)
            if v in sd:
                return self.comp(f, sd[v], hs)
        return None

    def bad(self, rule, f, nd, q, what):
        self.rep.bad(rule, f.where(nd), '%s: %s %s' % (f.q, q.split('::')[-1], what), '%s|%s|%s' % (f.q, q, rule))

    def handles(self, f, hv):
        hs = {hv} if hv is not None else set()
        if hv is None:
            return hs | {v for v, d in enumerate(f.vars) if v not in f.params and 'VoikkoHandle' in d['t'] and d['t'].replace(' ', '').endswith(('*', '*const'))}
        for _ in range(3):
            for nd in f.nodes:
                if nd['k'] == 'DeclStmt':
                    for d in nd['decls']:
                        if 'v' in d and 'init' in d and f.var(d['init']) in hs:
                            hs.add(d['v'])
                elif nd['k'] == 'BinaryOperator' and nd['op'] == '=' and f.var(nd['rhs']) in hs and f.var(nd['lhs']) is not None and f.var(nd['rhs']) is not None:
                    hs.add(f.var(nd['lhs']))
        return hs

    def created(self):
        """state before a handle exists"""
        st = {q: frozenset('U') for q in self.fields}
        st['*error'] = frozenset('?')
        st['handle'] = frozenset('X')
        st['#src'] = frozenset()
        return st

    @staticmethod
    def join(sts):
        return {k: frozenset().union(*[x.get(k, frozenset()) for x in sts]) for k in set().union(*sts)} if sts else None

    def returned_call(self, f, i):
        """call whose result (a handle) expression i is"""
        i = f.strip(i)
        v = f.var(i)
        if v is not None:
            sd = self.sym.single_defs(f)
            return self.returned_call(f, sd[v]) if v in sd else None
        nd = f.nodes[i]
        return nd if nd.get('callee') and self.makers(nd) else None

    def makers(self, nd):
        return [g for g in self.m.targets(nd) if 'VoikkoHandle' in g.d['ret'] and g.d['ret'].rstrip().endswith('*')]

    def run(self, f, hv, start, depth=0):
        """(returned value class, state) list at the returns of f; start: state at entry (None: the handle is created here)"""
        hs = self.handles(f, hv)
        key0 = start
        ins = {f.entry: start}
        wl = deque([f.entry])
        exits = []
        rets = {}

        def flow(b, st):
            if st is None:
                if b not in ins:
                    ins[b] = None
                    wl.append(b)
                return
            cur = ins.get(b)
            n = dict(st) if cur is None else {k: cur.get(k, frozenset()) | st.get(k, frozenset()) for k in set(cur) | set(st)}
            if cur != n or b not in ins:
                ins[b] = n
                wl.append(b)
        while wl:
            b = wl.popleft()
            st = ins[b]
            st = dict(st) if st is not None else None
            blk = f.blocks[b]
            for e in blk['e']:
                if isinstance(e, dict):
                    continue
                for hb in self.T.handlers(f, e):
                    flow(hb, st)
                st = self.step(f, f.nodes[e], st, hs, depth)
                if f.nodes[e]['k'] == 'ReturnStmt':
                    rets[e] = st if rets.get(e) is None or st is None else {k: st.get(k, frozenset()) | rets[e].get(k, frozenset()) for k in set(st) | set(rets[e])}
            for idx, s in enumerate(blk['s']):
                if s is None:
                    continue
                st2 = st
                if st is not None and 'cond' in blk and 'term' in blk and len(blk['s']) == 2 and f.nodes[blk['term']]['k'] not in ('SwitchStmt', 'CXXTryStmt'):
                    st2 = self.refine(f, blk['cond'], idx == 0, st, hs)
                    if st2 is None:
                        continue
                flow(s, st2)
        for e, st in rets.items():
            nd = f.nodes[e]
            cl = 'void'
            if 'val' in nd:
                v = f.var(nd['val'])
                cl = 'null' if f.isnull(nd['val']) or f.const(nd['val']) == 0 else 'handle' if v in hs else 'value'
                c = self.returned_call(f, nd['val'])
                if c is not None and (f.key, c['i']) in self.made and st.get('#src') in (None, frozenset([(f.key, c['i'])])):
                    nl, lv = self.made[(f.key, c['i'])]
                    if nl is not None:
                        exits.append(('null', nd, nl))
                    if lv is not None:
                        exits.append(('handle', nd, lv))
                    continue
                x = f.nodes[f.strip(nd['val'])]
                if x['k'] == 'CXXNewExpr' and x.get('at') == H:
                    cl = 'handle'
            exits.append((cl, nd, st))
        # falling off the end
        if f.d['ret'] == 'void':
            return [('void', None, ins[f.exit])] if f.exit in ins else []
        return exits

    def refine(self, f, i, truth, st, hs):
        nd = f.nodes[f.strip(i)]
        if nd['k'] == 'UnaryOperator' and nd['op'] == '!':
            return self.refine(f, nd['sub'], not truth, st, hs)
        if nd['k'] == 'BinaryOperator' and nd['op'] in ('==', '!='):
            for a, b in ((nd['lhs'], nd['rhs']), (nd['rhs'], nd['lhs'])):
                if f.isnull(b):
                    return self.refine(f, a, truth == (nd['op'] == '!='), st, hs)
            return st
        if f.var(nd['i']) in hs and f.var(nd['i']) is not None and len(st.get('#src', ())) == 1:
            nl, lv = self.made[next(iter(st['#src']))]
            return lv if truth else nl
        q = self.comp(f, nd['i'], hs)
        if q:
            if 'U' in st[q]:
                self.bad('uninitialised', f, nd, q, 'is tested before it is initialised')
            keep = st[q] - {'N'} if truth else st[q] & {'N', 'U'}
            if not keep:
                return None
            st = dict(st)
            st[q] = keep
        return st

    def step(self, f, nd, st, hs, depth, quiet=False):
        k = nd['k']
        if k == 'CXXNewExpr' and nd.get('at') == H:
            z = 'ctor' in nd and f.nodes[nd['ctor']].get('zero')
            inited = self.ctor_inits(f, nd)
            st = dict(st)
            st.update({q: frozenset('N' if z or q in inited else 'U') for q in self.fields})
            st['handle'] = frozenset('L')
            st['#src'] = frozenset()
            return st
        bad = (lambda *a: None) if quiet else self.bad
        if k == 'BinaryOperator' and nd['op'] == '=':
            q = self.comp_lhs(f, nd['lhs'], hs)
            if q:
                st = dict(st)
                if st[q] & {'L', 'T'} and not self.self_assign(f, nd, q, hs):
                    bad('replaced', f, nd, q, 'is overwritten while it is live: the old object is never released')
                st[q] = frozenset('N') if f.isnull(nd['rhs']) else frozenset('L')
            elif self.is_error(f, nd['lhs']):
                st = dict(st)
                st['*error'] = frozenset('0') if f.isnull(nd['rhs']) else frozenset('M')
        elif k == 'CXXDeleteExpr':
            q = self.comp(f, nd['arg'], hs)
            if q:
                st = dict(st)
                s = st[q]
                if 'U' in s:
                    bad('uninitialised', f, nd, q, 'is deleted before it is initialised')
                if 'D' in s:
                    bad('deleted-twice', f, nd, q, 'is deleted twice on some path')
                if 'L' in s and q in self.term:
                    bad('not-terminated', f, nd, q, 'is deleted without having been terminated: files and mappings it holds are never released')
                st[q] = frozenset('N' if x == 'N' else 'D' for x in s)
            elif f.var(nd['arg']) in hs and f.var(nd['arg']) is not None:
                st = dict(st)
                for q in self.fields:
                    if st[q] & {'L', 'T'}:
                        bad('left-behind', f, nd, q, 'has been created but not deleted when the handle is deleted')
                st['handle'] = frozenset('D')
        elif nd.get('callee'):
            if nd.get('cn') == 'terminate' and 'obj' in nd:
                q = self.comp(f, nd['obj'], hs)
                if q:
                    s = st[q]
                    for x, w in (('U', 'uninitialised'), ('D', 'deleted-use'), ('N', 'null-use')):
                        if x in s:
                            bad(w, f, nd, q, 'is terminated although it can be %s' % NAME[x])
                    if 'T' in s:
                        bad('terminated-twice', f, nd, q, 'is terminated twice on some path')
                    st = dict(st)
                    st[q] = frozenset('T' if x == 'L' else x for x in s)
                    return st
            elif 'obj' in nd and self.comp(f, nd['obj'], hs):
                q = self.comp(f, nd['obj'], hs)
                for x in ('U', 'D', 'T', 'N'):
                    if x in st[q]:
                        bad('dead-use', f, nd, q, 'is used although it can be %s' % NAME[x])
            mk = self.makers(nd)
            if mk and depth < 4 and st.get('handle') == frozenset('X'):
                ex = [x for g in mk for x in self.run(g, None, st, depth + 1)]
                nl, lv = self.join([x for c, _, x in ex if c == 'null']), self.join([x for c, _, x in ex if c != 'null'])
                key = (f.key, nd['i'])
                for x in (nl, lv):
                    if x is not None:
                        x['#src'] = frozenset([key])
                self.made[key] = (nl, lv)
                return self.join([x for x in (nl, lv) if x is not None]) or st
            for g in self.m.targets(nd):
                for ai, a in enumerate(nd.get('args', ())):
                    if ai < len(g.params) and f.var(a) in hs and f.var(a) is not None:
                        if 'D' in st.get('handle', ()):
                            bad('dead-use', f, nd, 'handle', 'is used after it was deleted')
                        if depth < 4 and self.touches(g):
                            ex = self.run(g, g.params[ai], st, depth + 1)
                            ex = [x for _, _, x in ex if x is not None]
                            if ex:
                                st = {q: frozenset().union(*[x.get(q, frozenset()) for x in ex]) for q in st}
                                st.setdefault('*error', frozenset('?'))
                # a component passed to a helper that terminates or deletes it
                for ai, a in enumerate(nd.get('args', ())):
                    q = self.comp(f, a, hs)
                    if q and ai < len(g.params):
                        acts = self.param_acts(g, g.params[ai])
                        if acts:
                            st = dict(st)
                            s = st[q]
                            if 'N' in s and 'nulltest' not in acts and 'terminate' in acts:
                                bad('null-use', f, nd, q, 'is terminated although it can be null')
                            if 'terminate' in acts:
                                s = frozenset('T' if x == 'L' else x for x in s)
                            if 'delete' in acts:
                                if 'L' in s and q in self.term:
                                    bad('not-terminated', f, nd, q, 'is deleted without having been terminated: files and mappings it holds are never released')
                                if 'D' in s:
                                    bad('deleted-twice', f, nd, q, 'is deleted twice on some path')
                                s = frozenset('N' if x == 'N' else 'D' for x in s)
                                if g.vars[g.params[ai]]['t'].rstrip().endswith('&') and 'null' in acts:
                                    s = frozenset('N')
                            st[q] = s
                    elif q is None and ai < len(g.params):
                        pass
        return st

    def param_acts(self, g, v):
        acts = set()
        for nd in g.nodes:
            if nd['k'] == 'CXXDeleteExpr' and g.var(nd['arg']) == v:
                acts.add('delete')
            elif nd.get('cn') == 'terminate' and 'obj' in nd and g.var(nd['obj']) == v:
                acts.add('terminate')
            elif nd['k'] == 'BinaryOperator' and nd['op'] == '=' and g.var(nd['lhs']) == v and g.isnull(nd['rhs']):
                acts.add('null')
            elif nd['k'] == 'IfStmt':
                acts.add('nulltest')
        return acts if acts & {'delete', 'terminate'} else set()

    def comp_lhs(self, f, i, hs):
        p = f.path(f.strip(i))
        if p[0] == 'f' and p[2] in self.fields:
            b = p[1]
            while b[0] == 'd':
                b = b[1]
            if b[0] == 'v' and b[1] in hs:
                return p[2]
        return None

    def self_assign(self, f, nd, q, hs):
        return self.comp(f, nd['rhs'], hs) == q

    def ctor_inits(self, f, x):
        out = set()
        if 'ctor' in x:
            g = self.m.fns.get(f.nodes[x['ctor']].get('callee'))
            if g is not None:
                for ini in g.d.get('inits', ()):
                    if ini.get('field'):
                        out.add(ini['field'])
                for nd in g.nodes:
                    if nd['k'] == 'BinaryOperator' and nd['op'] == '=':
                        p = g.path(nd['lhs'])
                        if p[0] == 'f':
                            out.add(p[2])
        rec = self.m.records[H]
        out |= {fl['q'] for fl in rec['fields'] if fl.get('hasinit')}
        return out

    def is_error(self, f, i):
        p = f.path(f.strip(i))
        return p[0] in ('d', 'e') and p[1][0] == 'v' and p[1][1] in f.params and f.vars[p[1][1]]['t'].replace(' ', '').endswith('char**')

    def touches(self, g):
        """does g (or what it calls) change a component?"""
        if '_life' not in g.__dict__:
            g.__dict__['_life'] = False
            r = False
            for nd in g.nodes:
                if nd['k'] == 'CXXDeleteExpr' or nd.get('cn') == 'terminate':
                    r = True
                elif nd['k'] == 'BinaryOperator' and nd['op'] == '=':
                    p = g.path(nd['lhs'])
                    if p[0] == 'f' and p[2] in self.fields or self.is_error(g, nd['lhs']):
                        r = True
                elif nd.get('callee'):
                    for t in self.m.targets(nd):
                        if any(g.vars[v]['t'].replace(' ', '').startswith('VoikkoHandle') or 'VoikkoHandle' in g.vars[v]['t'] for v in g.params) and any('VoikkoHandle' in t.vars[v]['t'] for v in t.params) and t.key != g.key and not t.cls and self.touches(t):
                            r = True
            g.__dict__['_life'] = r
        return g.__dict__['_life']


def run(m, rep, tier):
    L = Life(m, rep)
    rep.count('components', len(L.fields))
    rep.need(len(L.fields), 6, 'components of the handle')
    for q in sorted(L.fields):
        rep.sample('components', q + (' (has terminate())' if q in L.term else ''), 10)
    init = m.api('voikkoInit')
    optional = set()
    ok = False
    for cl, nd, st in L.run(init, None, L.created()):
        rep.count('init_exits')
        if st is None:
            continue
        if cl == 'null':
            rep.count('failure_exits')
            if 'L' in st['handle']:
                rep.bad('handle-left', init.where(nd), 'voikkoInit returns null without deleting the handle', 'init|handle')
            if st['*error'] != frozenset('M'):
                rep.bad('error', init.where(nd), 'voikkoInit returns null without a message in *error', 'init|nomsg')
        else:
            ok = True
            live = {q: st[q] for q in L.fields}
            for q in L.fields:
                if 'U' in st[q]:
                    rep.bad('uninitialised', init.where(nd), '%s is not initialised when voikkoInit succeeds' % q, 'init|U|' + q)
                elif st[q] == frozenset('N'):
                    rep.bad('missing', init.where(nd), '%s is never created' % q, 'init|N|' + q)
                elif st[q] - {'L', 'N'}:
                    rep.bad('dangling', init.where(nd), '%s is %s when voikkoInit succeeds' % (q, '/'.join(NAME[x] for x in sorted(st[q]))), 'init|D|' + q)
            if st['*error'] != frozenset('0'):
                rep.bad('error', init.where(nd), 'voikkoInit returns a handle without setting *error to null', 'init|err0')
    if not ok:
        raise AnalysisError('no successful return of voikkoInit found')
    # functions that change components of a handle given to them
    start = {q: frozenset('L') for q in L.fields}
    for f in m.exported():
        hv = [v for v in f.params if 'VoikkoHandle' in f.vars[v]['t']]
        if not hv or not writes_components(m, L, f):
            continue
        if f.name == 'voikkoTerminate' or deletes_handle(m, L, f):
            continue
        rep.count('functions_replacing_components')
        for cl, nd, st in L.run(f, hv[0], dict(start, **{'handle': frozenset('L'), '*error': frozenset('?')})):
            if st is None:
                continue
            for q in L.fields:
                s = st[q]
                if s & {'D', 'T'}:
                    rep.bad('dangling', f.where(nd), '%s can be %s when %s returns' % (q, '/'.join(NAME[x] for x in sorted(s & {'D', 'T'})), f.name), '%s|D|%s' % (f.name, q))
                if 'N' in s:
                    optional.add(q)
                    if not null_safe(m, q, rep):
                        rep.bad('null', f.where(nd), '%s can be null when %s returns, but it is used without a test' % (q, f.name), '%s|N|%s' % (f.name, q))
    term = m.api('voikkoTerminate')
    st0 = {q: frozenset('LN') if q in optional else frozenset('L') for q in L.fields}
    hv = [v for v in term.params if 'VoikkoHandle' in term.vars[v]['t']][0]
    n = 0
    for cl, nd, st in L.run(term, hv, dict(st0, **{'handle': frozenset('L'), '*error': frozenset('?')})):
        n += 1
        if st is None:
            continue
        if 'D' not in st['handle'] or 'L' in st['handle']:
            rep.bad('handle-left', term.where(nd), 'voikkoTerminate returns without deleting the handle', 'term|handle')
        for q in L.fields:
            if st[q] & {'L', 'T'}:
                rep.bad('left-behind', term.where(nd), 'voikkoTerminate returns without deleting %s' % q, 'term|' + q)
    rep.need(n, 1, 'returns of voikkoTerminate')
    messages(m, rep)
    transducers(m, rep)


def writes_components(m, L, f, seen=None):
    seen = seen if seen is not None else set()
    if f.key in seen:
        return False
    seen.add(f.key)
    for nd in f.nodes:
        if nd['k'] == 'BinaryOperator' and nd['op'] == '=':
            p = f.path(nd['lhs'])
            if p[0] == 'f' and p[2] in L.fields:
                return True
        if nd['k'] == 'CXXDeleteExpr' and f.path(nd['arg'])[0] == 'f' and f.path(nd['arg'])[2] in L.fields:
            return True
        if nd.get('callee'):
            for t in m.targets(nd):
                if not t.cls and any('VoikkoHandle' in t.vars[v]['t'] for v in t.params) and writes_components(m, L, t, seen):
                    return True
    return False


def deletes_handle(m, L, f, depth=0):
    for nd in f.nodes:
        if nd['k'] == 'CXXDeleteExpr' and nd.get('dt') == H:
            return True
        if nd.get('cn') == 'voikkoTerminate':
            return True
        if nd.get('callee') and depth < 3 and any(not g.cls and deletes_handle(m, L, g, depth + 1) for g in m.targets(nd)):
            return True
    return False


def null_safe(m, q, rep):
    """is every use of component q (through any handle) preceded by a test?"""
    from vlib.facts import Facts
    F = Facts(m)
    for f in m.fns.values():
        for nd in f.nodes:
            if nd.get('callee') and 'obj' in nd and nd['k'] == 'CXXMemberCallExpr':
                p = f.path(f.strip(nd['obj']))
                if p[0] == 'f' and p[2] == q:
                    rep.count('uses_of_optional_components')
                    t = F.sym(f, nd['obj'])
                    facts = F.at(f, nd['i'])
                    if not any(t in (a, b) and op == '!=' and ('c', 0) in (a, b) for a, op, b in facts):
                        return False
    return True


def short_lived(f, i):
    """is the text behind this pointer gone when the function returns (or the handler ends)?"""
    x = f.nodes[f.strip(i)]
    if x['k'] == 'ConditionalOperator':
        return short_lived(f, x['then']) or short_lived(f, x['else'])
    if x['k'] == 'DeclRefExpr' and x.get('dk') == 'var' and x['v'] not in f.params:
        d = f.vars[x['v']]
        if '[' in d['t'] and not d.get('static'):
            return 'a local array'
        if '*' in d['t']:
            ds = [y for nd in f.nodes if nd['k'] == 'DeclStmt' for y in nd['decls'] if y.get('v') == x['v'] and 'init' in y]
            return len(ds) == 1 and short_lived(f, ds[0]['init'])
    if x.get('cn') in ('c_str', 'data') and 'obj' in x:
        r = f.root(f.path(x['obj']))
        if r[0] == 'x' or r[0] == 'v' and r[1] not in f.params and not f.vars[r[1]].get('static') and not f.vars[r[1]]['t'].endswith(('&', '*')):
            return 'a local string'
    if x.get('cn') == 'what' and 'DictionaryException' not in x.get('callee', '') and 'obj' in x:
        return 'the exception'
    return False


def messages(m, rep):
    """arguments of exception constructors whose text ends up in *error"""
    n = 0
    for f in m.fns.values():
        for nd in f.nodes:
            if nd['k'] == 'CXXConstructExpr' and nd.get('ccls', '').endswith('DictionaryException') and not nd.get('copy') and nd.get('args'):
                n += 1
                a = f.nodes[f.strip(nd['args'][0])]
                pt = (nd.get('pt') or [''])[0]
                if '*' in pt and a['k'] not in ('StringLiteral', 'CXXNullPtrLiteralExpr', 'ConditionalOperator', 'DeclRefExpr') and not (a['k'] == 'CallExpr'):
                    rep.bad('message', f.where(nd), 'the message of this exception does not outlive it, but voikkoInit hands it out', f.q)
                elif '*' in pt and short_lived(f, nd['args'][0]):
                    rep.bad('message', f.where(nd), 'the message of this exception is in a local buffer, but voikkoInit hands it out', f.q)
    for f in m.fns.values():
        for nd in f.nodes:
            if nd['k'] == 'BinaryOperator' and nd['op'] == '=' and f.path(nd['lhs'])[0] in ('d', 'e'):
                p = f.path(nd['lhs'])
                if p[1][0] == 'v' and p[1][1] in f.params and f.vars[p[1][1]]['t'].replace(' ', '').endswith('char**') and not f.isnull(nd['rhs']):
                    n += 1
                    w = short_lived(f, nd['rhs'])
                    if w:
                        rep.bad('message', f.where(nd), 'the error message that is handed out is in %s, which is gone when the caller reads it' % w, '%s|out' % f.q)
    rep.count('error_messages', n)
    rep.need(n, 10, 'dictionary error messages')
    for f in m.fns.values():
        if f.name == 'what' and f.cls and f.cls.endswith('DictionaryException'):
            for nd in f.nodes:
                if nd['k'] == 'ReturnStmt' and 'val' in nd:
                    x = f.nodes[f.strip(nd['val'])]
                    if x.get('callee') and not x.get('cn') == 'gettext':
                        rep.bad('message', f.where(nd), 'the message belongs to the exception object and dies with it, but voikkoInit hands it out', f.q)


def transducers(m, rep):
    n = 0
    for f in m.fns.values():
        for nd in f.nodes:
            if nd['k'] != 'CXXDeleteExpr' or not nd.get('dt') or 'tools/' in f.file:
                continue
            dt = nd['dt']
            own = [g for g in m.fns.values() if g.name == 'terminate' and g.cls and (g.cls == dt or g.cls in m.bases(dt)) and any(x.get('callee') or x['k'] == 'CXXDeleteExpr' for x in g.nodes)]
            if not own or not dt.endswith('Transducer'):
                continue
            n += 1
            p = f.path(nd['arg'])
            terms = [x['i'] for x in f.nodes if x.get('cn') == 'terminate' and 'obj' in x and f.path(x['obj']) == p]
            if not any(dominates(f, t, nd['i']) for t in terms):
                rep.bad('not-terminated', f.where(nd), '%s deletes a transducer without terminating it: its file mapping is never released' % f.q, f.q + '|' + str(p))
    rep.count('transducer_deletes', n)
    rep.need(n, 3, 'deletes of transducers')
