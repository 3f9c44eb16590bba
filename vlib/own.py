"""Disjunctive, path-sensitive ownership interpreter for raw pointers, with function summaries.

Abstract values of a pointer slot: ('N',) null, ('T', token) points to (into) the block named by token, ('U',) anything.
Tokens: ('A', node) block obtained at an allocation or a call that returns a fresh block; ('P', k) block passed in parameter k;
('D', k) block that *parameter k pointed to at entry; ('M', slot) block a member pointed to at entry.
Status: own (must be released or handed on), esc (reachable from elsewhere), in (belongs to the caller), freed, unk.
"""
from collections import deque
from .effects import is_write_op, write_target, Effects
from .facts import Facts, canon
from .sym import Sym, subterms
from .throws import Throws, catches
from .valset import NEG

NUL, UNK = ('N',), ('U',)
MAXSTATES = 400
# C library functions that access the text or block they are given
STRFN = {'strlen', 'wcslen', 'strcpy', 'wcscpy', 'strncpy', 'wcsncpy', 'strcmp', 'wcscmp', 'strncmp', 'wcsncmp', 'strchr', 'wcschr', 'strrchr', 'wcsrchr', 'strcat', 'wcscat',
         'strstr', 'wcsstr', 'wmemcpy', 'memcpy', 'memmove', 'memcmp', 'strtok', 'atoi', 'wcstol', 'strtol', 'wcscasecmp', 'strcasecmp', 'strdup', 'wcsdup', 'wcscoll', 'wcstombs', 'mbstowcs'}


def isnul(v):
    return v is not None and v[0] == 'N'


class Summary:
    __slots__ = ('params', 'ret', 'out', 'kinds', 'frees', 'needs')

    def __init__(self):
        self.params = {}     # k -> set of final statuses: 'in' 'freed' 'esc'
        self.ret = set()     # 'N', ('F', kind), ('P', k), 'U'
        self.out = {}        # k -> set of final kinds of the slot behind a reference / pointer-to-pointer parameter
        self.frees = {}      # k -> set of delete kinds
        self.needs = {}      # k -> where the block of parameter k is accessed without a test for null
        self.kinds = set()


def isptr(t):
    t = t.rstrip()
    return t.endswith('*') or t.endswith('*const') or t.endswith('* const')


def isptrref(t):
    t = t.replace('const', '').replace(' ', '')
    return t.endswith('*&') or t.endswith('**')


class Own:
    def __init__(self, m, eff=None):
        self.m = m
        self.eff = eff or Effects(m)
        self.sym = Sym(m)
        self.facts = Facts(m, self.sym, self.eff)
        self.memo = {}
        self.writes = {}
        self.stats = {'functions': 0, 'states': 0, 'allocations': set(), 'releases': set()}
        self.rel = {}
        self.subs = {}
        self.hmemo = {}
        self.live = {}
        self.stores = {}
        self.given = {}
        self.local_stores = {}
        self.elem_stores = {}
        self.throws = Throws(m)
        self.reports = {}
        self._scc = None
        self.released = released_fields(m)

    # ---------------------------------------------------------------- summaries
    def summary(self, f):
        if f.key in self.memo:
            return self.memo[f.key]
        scc = self.scc_of(f)
        if len(scc) == 1 and not any(t.key == f.key for _, t in self.m.cg[f.key]):
            s = self.memo[f.key] = self.analyse(f)
            return s
        # mutually recursive functions: least fixpoint from "touches nothing"
        for k in scc:
            self.memo[k] = Summary()
        for rnd in range(6):
            old = {k: summ_key(self.memo[k]) for k in scc}
            for k in scc:
                self.memo[k] = self.analyse(self.m.fns[k])
            if {k: summ_key(self.memo[k]) for k in scc} == old:
                break
            for k in list(self.rel):
                if k in scc:
                    del self.rel[k]
                    self.live.pop(k, None)
        return self.memo[f.key]

    def scc_of(self, f):
        if self._scc is None:
            self._scc = sccs({k: [t.key for _, t in v] for k, v in self.m.cg.items()})
        return self._scc[f.key]

    def twrites(self, t):
        if t.key not in self.writes:
            self.writes[t.key] = frozenset(self.eff.transitive([t])[1])
        return self.writes[t.key]

    # ---------------------------------------------------------------- slots and values
    def slot(self, f, i):
        """key of a tracked storage location, or None"""
        return self.slot_of_path(f, f.path(i))

    def slot_of_path(self, f, p):
        if p[0] == 'v':
            return p[1]
        if p[0] == 'd' and p[1][0] == 'v' and p[1][1] in f.params and isptrref(f.vars[p[1][1]]['t']):
            return ('*', p[1][1])
        if p[0] == 'e' and p[2] == 0 and p[1][0] == 'v' and p[1][1] in f.params and isptrref(f.vars[p[1][1]]['t']):
            return None
        q = p
        n = 0
        while q[0] == 'f':
            q = q[1]
            n += 1
        if n and q[0] in ('v', 'this'):
            return p
        if p[0] == 'g':
            return p
        return None

    def ev(self, f, i, st):
        env = st[0]
        i = f.strip(i)
        nd = f.nodes[i]
        if f.isnull(i) or nd.get('nul'):
            return NUL
        if ('r', i) in env:
            return env[('r', i)]
        k = nd['k']
        if k in ('DeclRefExpr', 'MemberExpr') or (k == 'UnaryOperator' and nd['op'] == '*'):
            s = self.slot(f, i)
            if s is not None:
                v = env.get(s)
                if v is not None:
                    return v
                if isinstance(s, tuple) and s[0] == 'f' and isptr(nd.get('t', '')):
                    return ('T', ('M', s))
            return UNK
        if k == 'ConditionalOperator':
            if ('c', i) in env:
                return self.ev(f, nd['then'] if env[('c', i)] == 0 else nd['else'], st)
            a, b = self.ev(f, nd['then'], st), self.ev(f, nd['else'], st)
            return a if a == b else UNK
        if k == 'BinaryOperator' and nd['op'] in ('+', '-'):
            for s in ('lhs', 'rhs'):
                x = f.nodes[f.strip(nd[s])]
                if isptr(x.get('t', '')) or x.get('decay'):
                    return self.ev(f, nd[s], st)
            return UNK
        if k == 'BinaryOperator' and nd['op'] == '=':
            return self.ev(f, nd['lhs'], st)
        if k == 'BinaryOperator' and nd['op'] == ',':
            return self.ev(f, nd['rhs'], st)
        if k == 'UnaryOperator' and nd['op'] in ('++', '--'):
            return self.ev(f, nd['sub'], st)
        if k == 'UnaryOperator' and nd['op'] == '&':
            x = f.nodes[f.strip(nd['sub'])]
            if x['k'] == 'ArraySubscriptExpr':
                return self.ev(f, x['base'], st)
            return UNK
        if k == 'InitListExpr' and len(nd.get('c', ())) == 1:
            return self.ev(f, nd['c'][0], st)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CallExpr') and (nd.get('cn') in ('pair', 'make_pair') or 'std::pair' in str(nd.get('callee', ''))[:12]):
            for a in nd.get('args', ()):
                v = self.ev(f, a, st)
                if v[0] == 'T':
                    return v
            return UNK
        if k in ('MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ExprWithCleanups') and nd.get('c'):
            return self.ev(f, nd['c'][0], st)
        return UNK

    # ---------------------------------------------------------------- token status
    def set(self, st, slot, val):
        env = dict(st[0])
        if isinstance(slot, int):
            for k in list(env):
                if isinstance(k, tuple) and k[0] == 'f' and rooted(k, slot):
                    del env[k]
                elif env[k][0] == 'T' and env[k][1][0] == 'M' and rooted(env[k][1][1], slot):
                    del env[k]
            if val[0] == 'T' and val[1][0] == 'M' and rooted(val[1][1], slot):
                val = UNK
            dead = [t for t in st[1] if t[0] == 'M' and rooted(t[1], slot)]
            if dead:
                st = (st[0], {t: x for t, x in st[1].items() if t not in dead}, st[2])
        if val == UNK:
            env.pop(slot, None)
            if isinstance(slot, tuple) and slot[0] == 'f':
                env[slot] = UNK
        else:
            env[slot] = val
        return (env, st[1], st[2])

    def status(self, st, tok):
        s = st[1].get(tok)
        if s is None:
            return 'in' if tok[0] in ('P', 'D', 'M') else 'unk'
        return s

    def setstatus(self, st, tok, s):
        t = dict(st[1])
        t[tok] = s
        return (st[0], t, st[2])

    def give(self, st, val, t, k, f, nd):
        if val[0] == 'T' and val[1][0] == 'A' and st[1].get(val[1]) == 'own':
            self.given.setdefault((t.key, k), (f, nd, self.kind_of(f, val[1])))

    def escape(self, st, val):
        if val[0] == 'T' and self.status(st, val[1]) in ('own', 'in'):
            return self.setstatus(st, val[1], 'esc')
        return st

    # ---------------------------------------------------------------- transfer
    def step(self, f, e, st, sink):
        """list of successor states"""
        if isinstance(e, dict):
            if 'minit' in e and isinstance(e.get('e'), int):
                v = self.ev(f, e['e'], st)
                if v != UNK:
                    if v[0] == 'T' and v[1][0] == 'A' and st[1].get(v[1]) == 'own':
                        self.stores.setdefault(e['minit'], []).append((f, f.nodes[e['e']], self.kind_of(f, v[1]), 'init'))
                    elif v[0] == 'T' and v[1][0] == 'P':
                        self.stores.setdefault(e['minit'], []).append((f, f.nodes[e['e']], ('P', v[1][1]), 'param'))
                    if not (v[0] == 'T' and v[1][0] == 'P' and e['minit'] not in self.released):
                        st = self.escape(st, v)
                    st = self.set(st, ('f', ('this',), e['minit']), v)
            return [st]
        nd = f.nodes[e]
        k = nd['k']
        if k == 'ConditionalOperator':
            v = self.ev(f, e, st)
            env = dict(st[0])
            env.pop(('c', e), None)
            if isptr(nd.get('t', '')):
                env[('r', e)] = v
            return [(env, st[1], st[2])]
        if k == 'DeclStmt':
            for d in nd['decls']:
                if 'v' in d:
                    if 'init' in d and (isptr(d['t'])):
                        st = self.set(st, d['v'], self.ev(f, d['init'], st))
                    elif 'init' in d and d['t'].endswith('&'):
                        st = self.set(st, d['v'], UNK)
                    else:
                        st = self.set(st, d['v'], UNK)
                        if 'init' in d:
                            st = self.const_fact(f, d['v'], d['init'], st)
                            if len(nd['decls']) == 1:
                                return self.flag_split(f, d['v'], d['init'], st)
            return [st]
        if k == 'CXXNewExpr':
            if nd.get('placement'):
                return [self.set(st, ('r', e), UNK)]
            # constructor arguments that the new object keeps
            if 'ctor' in nd:
                c = f.nodes[nd['ctor']]
                st = self.ctor_args(f, c, st, sink)
            return [self.alloc(f, nd, st, 'new[]' if nd.get('array') else 'new', sink)]
        if k == 'CXXDeleteExpr':
            return self.delete(f, nd, nd['arg'], 'new[]' if nd.get('array') else 'new', st, sink)
        if k == 'ReturnStmt':
            return [st]
        if is_write_op(nd):
            return self.assign(f, nd, st, sink)
        if k == 'CXXConstructExpr' or k == 'CXXTemporaryObjectExpr':
            return [self.ctor_args(f, nd, st, sink)]
        if k == 'LambdaExpr':
            for c in nd.get('caps', ()):
                if 'v' in c:
                    st = self.escape(st, st[0].get(c['v'], UNK))
            return [st]
        if nd.get('callee') or (k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr') and 'args' in nd):
            return self.call(f, nd, st, sink)
        if k == 'UnaryOperator' and nd['op'] == '*':
            self.deref(f, nd, nd['sub'], st, sink)
        elif k == 'ArraySubscriptExpr':
            self.deref(f, nd, nd['base'], st, sink)
        elif k == 'MemberExpr' and nd.get('arrow'):
            self.deref(f, nd, nd['base'], st, sink)
        elif k == 'InitListExpr':
            if len(nd.get('c', ())) > 1:
                for c in nd['c']:
                    st = self.escape(st, self.ev(f, c, st))
        return [st]

    def forget(self, f, e, st):
        """results of subexpressions are dropped once the consuming statement is done"""
        if isinstance(e, dict):
            return st
        nd = f.nodes[e]
        if not (nd['k'] in ('DeclStmt', 'CXXDeleteExpr') or nd.get('callee') or nd['k'] == 'BinaryOperator' and nd['op'] == '='):
            return st
        rs = [k for k in st[0] if isinstance(k, tuple) and k[0] == 'r' and k[1] != e]
        if not rs:
            return st
        sub = self.subs.setdefault((f.key, e), None)
        if sub is None:
            sub = self.subs[(f.key, e)] = {x['i'] for x in f.walk(e)}
        rs = [k for k in rs if k[1] in sub]
        if not rs:
            return st
        env = dict(st[0])
        for k in rs:
            del env[k]
        return (env, st[1], st[2])

    def const_fact(self, f, v, init, st):
        c = f.const(init)
        t = ('var', f.key, v)
        atoms = frozenset(a for a in st[2] if not any(x == t for s in (a[0], a[2]) for x in subterms(s)))
        if c is not None:
            atoms |= {(('c', c), '==', t) if repr(('c', c)) <= repr(t) else (t, '==', ('c', c))}
        return (st[0], st[1], atoms)

    def flag_split(self, f, v, init, st):
        """a condition kept in a boolean local: one state per outcome, so that later tests of the flag agree with it"""
        if f.vars[v]['t'] not in ('bool', 'const bool') or ('var', f.key, v) not in self.relevant(f):
            return [st]
        x = f.nodes[f.strip(init)]
        if f.const(init) is not None or not (x['k'] in ('BinaryOperator', 'UnaryOperator', 'DeclRefExpr') or isptr(x.get('t', ''))):
            return [st]
        r = []
        for truth in (True, False):
            y = self.refine(f, init, truth, st)
            if y is not None:
                r.append((y[0], y[1], y[2] | {canon(('var', f.key, v), '!=' if truth else '==', ('c', 0))}))
        return r or [st]

    def alloc(self, f, nd, st, kind, sink):
        tok = ('A', nd['i'])
        if st[1].get(tok) == 'own':
            holders = [s for s, v in st[0].items() if v == ('T', tok) and s != ('r', nd['i'])]
            if not holders or True:
                # the block of the previous round is still owned: lost when no other name keeps it
                tgt = self.target_slot(f, nd)
                if all(h == tgt for h in holders):
                    sink('leak', f, nd, 'the block obtained here in the previous round of the loop is lost', st)
        env = dict(st[0])
        for s, v in list(env.items()):
            if v == ('T', tok):
                env[s] = UNK
        env[('r', nd['i'])] = ('T', tok)
        toks = dict(st[1])
        toks[tok] = 'own'
        self.stats['allocations'].add((f.key, nd['i']))
        return (env, toks, st[2])

    def target_slot(self, f, nd):
        p = f.parent.get(nd['i'])
        while p is not None and f.nodes[p]['k'] not in ('DeclStmt', 'BinaryOperator'):
            p = f.parent.get(p)
        if p is None:
            return None
        x = f.nodes[p]
        if x['k'] == 'BinaryOperator' and x['op'] == '=':
            return self.slot(f, x['lhs'])
        if x['k'] == 'DeclStmt':
            for d in x['decls']:
                if 'init' in d and nd['i'] in {y['i'] for y in f.walk(d['init'])}:
                    return d.get('v')
        return None

    def delete(self, f, nd, arg, kind, st, sink):
        self.stats['releases'].add((f.key, nd['i']))
        v = self.ev(f, arg, st)
        if isnul(v) or v == UNK:
            # deleting an element of a container: the container itself must be alive
            return [st]
        tok = v[1]
        s = self.status(st, tok)
        if s == 'freed':
            sink('double-free', f, nd, 'the block has already been released on this path', st)
            return [st]
        ak = self.kind_of(f, tok)
        if ak and kind and ak != kind:
            sink('mismatch', f, nd, 'a block obtained with %s is released with %s' % (ak, {'new': 'delete', 'new[]': 'delete[]'}.get(kind, kind)), st)
        if tok[0] in ('P', 'D'):
            self.cur_frees.setdefault(tok, set()).add(kind)
        return [self.setstatus(st, tok, 'freed')]

    def kind_of(self, f, tok):
        if tok[0] != 'A':
            return None
        nd = f.nodes[tok[1]]
        if nd['k'] == 'CXXNewExpr':
            return 'new[]' if nd.get('array') else 'new'
        ks = set()
        ts = self.m.targets(nd)
        if not ts and nd.get('cn') in ('malloc', 'calloc', 'strdup', 'wcsdup'):
            return 'malloc'
        for t in ts:
            s = self.summary(t)
            for r in list(s.ret) + [x for o in s.out.values() for x in o]:
                if isinstance(r, tuple) and r[0] == 'F':
                    ks.add(r[1])
        return ks.pop() if len(ks) == 1 else None

    def assign(self, f, nd, st, sink):
        k = nd['k']
        t = write_target(nd)
        slot = self.slot(f, t)
        tn = f.nodes[f.strip(t)]
        if k == 'BinaryOperator' and isptr(tn.get('t', '')):
            val = self.ev(f, nd['rhs'], st)
            if slot is None and not isnul(val) and tn['k'] in ('ArraySubscriptExpr', 'UnaryOperator'):
                kd = (self.kind_of(f, val[1]) or 'new[]') if val[0] == 'T' and val[1][0] == 'A' and st[1].get(val[1]) == 'own' else 'other'
                self.elem_stores.setdefault((f.key, nd['i']), set()).add(kd)
            if slot is None or not isinstance(slot, int):
                # stored where others can see it
                isout = isinstance(slot, tuple) and slot[0] == '*'
                if not isout:
                    self.stored(f, nd, t, slot, val, st)
                    p = f.path(t)
                    if not (p[0] == 'f' and p[2] not in self.released and val[0] == 'T' and val[1][0] == 'P'):
                        st = self.escape(st, val)      # a member that is never released only borrows
            elif f.vars[slot]['t'].rstrip().endswith('&') and slot not in f.params:
                st = self.escape(st, val)
                slot = None
            elif f.vars[slot].get('static'):
                st = self.escape(st, val)
            if slot is not None:
                old = st[0].get(slot)
                if old is not None and old[0] == 'T' and old != val and st[1].get(old[1]) == 'own' and old[1][0] == 'A':
                    others = [s for s, v in st[0].items() if v == old and s != slot and not (isinstance(s, tuple) and s[0] == 'r')]
                    if not others:
                        sink('leak', f, f.nodes[old[1][1]], 'the only pointer to the block obtained here is overwritten at line %d' % nd['l'], st)
                        st = self.setstatus(st, old[1], 'esc')
                st = self.set(st, slot, val)
            return [st]
        if k == 'UnaryOperator' or k == 'CompoundAssignOperator':
            if slot is not None and isptr(tn.get('t', '')):
                return [st]
        # scalars: facts die; constants are remembered
        vs, fs = self.facts.kills(f, nd['i'])
        atoms = self.facts.step(f, nd['i'], st[2])
        st = (st[0], st[1], atoms)
        if isinstance(slot, int) and k == 'BinaryOperator':
            st = self.const_fact(f, slot, nd['rhs'], st)
            if nd['op'] == '=':
                return self.flag_split(f, slot, nd['rhs'], st)
        if tn.get('t', '').endswith('*') is False and k == 'BinaryOperator' and slot is None:
            pass
        return [st]

    def stored(self, f, nd, tgt, slot, val, st):
        """remembers fresh blocks put into members, and what the member held before"""
        if val[0] == 'T' and val[1][0] == 'P':
            p = f.path(tgt)
            el = p[0] in ('e', 'd')
            while p[0] in ('e', 'd'):
                p = p[1]
            if p[0] == 'f':
                self.stores.setdefault(p[2], []).append((f, nd, ('P', val[1][1]), 'element' if el else 'param'))
            return
        if not (val[0] == 'T' and val[1][0] == 'A' and st[1].get(val[1]) == 'own'):
            return
        p = f.path(tgt)
        while p[0] in ('e', 'd'):
            p = p[1]
        if p[0] != 'f':
            return
        old = 'unknown'
        if slot is not None:
            o = self.ev(f, tgt, st)
            if isnul(o):
                old = 'null'
            elif o[0] == 'T':
                s = self.status(st, o[1])
                old = 'freed' if s == 'freed' else ('entry' if s == 'in' else s)
        elif f.path(tgt)[0] in ('e', 'd'):
            old = 'element'
        self.stores.setdefault(p[2], []).append((f, nd, self.kind_of(f, val[1]), old))

    def deref(self, f, nd, base, st, sink):
        v = self.ev(f, base, st)
        if isnul(v) and len(v) > 1:
            sink('null', f, nd, 'the result of %s may be null here and is dereferenced' % self.origin(f, v), st)
        if v[0] == 'T' and v[1][0] == 'P' and ('nn', v[1]) not in st[0]:
            self.cur_needs.setdefault(v[1][1], '%s:%d' % (f.q, nd['l']))
        if v[0] == 'T' and st[1].get(v[1]) == 'freed':
            sink('use-after-free', f, nd, 'memory is used after it was released on this path', st)

    def must_point(self, f, nd, n, v, st, sink, why):
        if isnul(v) and len(v) > 1:
            sink('null', f, nd, 'the result of %s may be null here and is passed to %s, which accesses it%s' % (self.origin(f, v), n, '' if why == n else ' (%s)' % why), st)
        if v[0] == 'T' and v[1][0] == 'P' and ('nn', v[1]) not in st[0]:
            self.cur_needs.setdefault(v[1][1], '%s:%d' % (f.q, nd['l']))

    def origin(self, f, v):
        nd = f.nodes[v[1]]
        return '%s (line %d)' % (nd.get('cn') or 'a call', nd['l'])

    def ctor_args(self, f, nd, st, sink):
        if 'std::pair' in str(nd.get('callee', ''))[:12]:
            return st
        for ai, a in enumerate(nd.get('args', ())):
            v = self.ev(f, a, st)
            if ai == 0 and nd.get('cn') == 'basic_string' and isptr((nd.get('pt') or [''])[0]):
                self.must_point(f, nd, 'std::' + nd['cn'], v, st, sink, 'std::' + nd['cn'])
            if v[0] != 'T':
                continue
            ts = self.m.targets(nd)
            if ts:
                fin = set()
                for t in ts:
                    if ai in self.summary(t).needs:
                        self.must_point(f, nd, nd.get('cn') or 'a constructor', v, st, sink, self.summary(t).needs[ai])
                    fin |= self.summary(t).params.get(ai, {'in'})
                    self.give(st, v, t, ai, f, nd)
                if fin != {'in'}:
                    st = self.escape(st, v)
            elif not str(nd.get('callee', '')).startswith('std::') or 'ptr' in str(nd.get('callee', '')):
                st = self.escape(st, v)
        return st

    KEEPERS = ('push_back', 'push_front', 'insert', 'emplace', 'emplace_back', 'push', 'assign', 'operator=', 'reset', 'make_pair', 'pair', 'swap', 'resize', 'operator[]')

    def call(self, f, nd, st, sink):
        if nd.get('cn') == 'make_pair':
            return [st]
        ts = self.m.targets(nd)
        args = nd.get('args', ())
        vals = [self.ev(f, a, st) for a in args]
        n = nd.get('cn') or ''
        # object used
        if 'obj' in nd:
            o = f.nodes[f.strip(nd['obj'])]
            if isptr(o.get('t', '')) or nd['k'] == 'CXXMemberCallExpr' and isnul(self.ev(f, nd['obj'], st)):
                self.deref(f, nd, nd['obj'], st, sink)
        for a, v in zip(args, vals):
            if v[0] == 'T' and st[1].get(v[1]) == 'freed' and not f.nodes[f.strip(a)].get('t', '').startswith('std::'):
                sink('use-after-free', f, nd, 'a released block is passed to %s' % (n or 'a function'), st)
        atoms = self.facts.step(f, nd['i'], st[2])
        st = (st[0], st[1], atoms)
        pts = nd.get('pt', [])
        if not ts:
            key = str(nd.get('callee') or '')
            if n == 'free' and key.startswith('free('):
                return self.delete(f, nd, args[0], 'malloc', st, sink)
            if n in ('malloc', 'calloc', 'strdup', 'wcsdup') and not key.startswith('lib'):
                return [self.alloc(f, nd, st, 'malloc', sink)]
            for ai, v in enumerate(vals):
                if (n in STRFN and is_c(key.replace('std::', '')) or n == 'operator<<' and ai == len(vals) - 1 and 'basic_ostream' in key and 'char' in (pts[-1:] or [''])[0]) and isptr(pts[ai] if ai < len(pts) else pts[-1] if pts else ''):
                    self.must_point(f, nd, n, v, st, sink, n)
                if v[0] == 'T':
                    if n in self.KEEPERS or not nd.get('callee'):
                        if 'obj' in nd:
                            q = f.path(nd['obj'])
                            while q[0] in ('e', 'd'):
                                q = q[1]
                            if q[0] == 'v' and v[1][0] == 'A' and self.status(st, v[1]) == 'own' and q[1] not in f.params and '*' not in f.vars[q[1]]['t'].split('<')[0]:
                                self.local_stores.setdefault((f.key, q[1]), []).append((f, nd))
                            if q[0] == 'f' and v[1][0] in ('A', 'P') and self.status(st, v[1]) in ('own', 'in'):
                                self.stores.setdefault(q[2], []).append((f, nd, self.kind_of(f, v[1]) if v[1][0] == 'A' else ('P', v[1][1]), 'element'))
                        st = self.escape(st, v)
                    elif not key.startswith('std::') and not is_c(key) and nd.get('ext'):
                        if (pts[ai] if ai < len(pts) else '').replace('const', '').replace(' ', '') not in ('char*', 'wchar_t*'):
                            st = self.escape(st, v)     # other libraries: character buffers are only read
                    elif n not in self.KEEPERS and isptr(pts[ai] if ai < len(pts) else '') and False:
                        pass
                # by-reference / address arguments of unknown functions
                x = f.nodes[f.strip(args[ai])]
                if x['k'] == 'UnaryOperator' and x['op'] == '&':
                    s = self.slot(f, x['sub'])
                    if s is not None:
                        if st[0].get(s, UNK)[0] == 'T':
                            st = self.escape(st, st[0][s])
                        st = self.set(st, s, UNK)
                elif ai < len(pts) and pts[ai].endswith('&') and not pts[ai].startswith('const') and isptr(x.get('t', '')):
                    s = self.slot(f, args[ai])
                    if s is not None and n not in self.KEEPERS:
                        st = self.set(st, s, UNK)
            return [st]
        # known targets
        outs = [st]
        sums = [self.summary(t) for t in ts]
        # members that the callee may change
        ws = frozenset().union(*[self.twrites(t) for t in ts])
        env = dict(st[0])
        ch = False
        for s in list(env):
            if isinstance(s, tuple) and s[0] == 'f' and s[2] in ws:
                env[s] = UNK
                ch = True
        if ch:
            st = (env, st[1], st[2])
            vals = [self.ev(f, a, st) for a in args]
        for ai, v in enumerate(vals):
            fin = set()
            for s in sums:
                fin |= s.params.get(ai, {'in'})
            if v[0] == 'T':
                tok = v[1]
                for t in ts:
                    self.give(st, v, t, ai, f, nd)
                if fin == {'freed'} or fin == {'freed', 'null'}:
                    kinds = set().union(*[s.frees.get(ai, set()) for s in sums])
                    if self.status(st, tok) == 'freed':
                        pass
                    else:
                        ak = self.kind_of(f, tok)
                        if ak and len(kinds) == 1 and ak not in kinds:
                            sink('mismatch', f, nd, 'a block obtained with %s is released by %s as if obtained with %s' % (ak, n, list(kinds)[0]), st)
                        if tok[0] in ('P', 'D'):
                            self.cur_frees.setdefault(tok, set()).update(kinds)
                        st = self.setstatus(st, tok, 'freed')
                        self.stats['releases'].add((f.key, nd['i']))
                elif fin <= {'in', 'null'}:
                    pass
                elif 'freed' in fin or 'unk' in fin:
                    st = self.setstatus(st, tok, 'unk')
                else:
                    st = self.escape(st, v)
            for s in sums:
                if ai in s.needs:
                    self.must_point(f, nd, n, v, st, sink, s.needs[ai])
        outs = [st]
        # slots passed by reference or by address
        for ai, a in enumerate(args):
            x = f.nodes[f.strip(a)]
            s = None
            if x['k'] == 'UnaryOperator' and x['op'] == '&':
                s = self.slot(f, x['sub'])
            elif ai < len(pts) and pts[ai].endswith('&'):
                s = self.slot(f, a)
            if s is None:
                continue
            fins = set()
            for sm in sums:
                fins |= sm.out.get(ai, {'same'})
            if fins == {'same'}:
                continue
            nxt = []
            for o in outs:
                for r in fins:
                    if r == 'same':
                        nxt.append(o)
                    elif r == 'N':
                        nxt.append(self.set(o, s, ('N', nd['i'])))
                    elif isinstance(r, tuple) and r[0] == 'F':
                        o2 = self.alloc(f, nd, o, r[1], sink)
                        if isinstance(s, tuple) and s[0] == 'f':
                            self.stores.setdefault(s[2], []).append((f, nd, r[1], 'out'))
                            o2 = self.escape(o2, ('T', ('A', nd['i'])))
                        nxt.append(self.set(o2, s, ('T', ('A', nd['i']))))
                    else:
                        nxt.append(self.set(o, s, UNK))
            outs = nxt
        # result
        t0 = ts[0].d['ret']
        if isptr(t0):
            rets = set()
            for sm in sums:
                rets |= sm.ret
            if not any(isinstance(r, tuple) for r in rets):
                rets = {'U'}      # borrowed pointers: presence is a matter of the data
            nxt = []
            for o in outs:
                for r in rets or {'U'}:
                    if r == 'N':
                        nxt.append(self.set(o, ('r', nd['i']), ('N', nd['i'])))
                    elif isinstance(r, tuple) and r[0] == 'F':
                        nxt.append(self.alloc(f, nd, o, r[1], sink))
                    elif isinstance(r, tuple) and r[0] == 'P':
                        nxt.append(self.set(o, ('r', nd['i']), vals[r[1]] if r[1] < len(vals) else UNK))
                    else:
                        nxt.append(self.set(o, ('r', nd['i']), UNK))
            outs = nxt
        return outs

    # ---------------------------------------------------------------- conditions
    def edge(self, f, blk, idx, st):
        if 'cond' not in blk or 'term' not in blk:
            return st
        if len(blk['s']) != 2 or f.nodes[blk['term']]['k'] in ('SwitchStmt', 'CXXForRangeStmt', 'CXXTryStmt'):
            if f.nodes[blk['term']]['k'] == 'SwitchStmt':
                at = self.facts.edge(f, blk, idx)
                return self.addatoms(f, st, at)
            return st
        st = self.refine(f, blk['cond'], idx == 0, st)
        if st is not None and f.nodes[blk['term']]['k'] == 'ConditionalOperator' and isptr(f.nodes[blk['term']].get('t', '')):
            env = dict(st[0])
            env[('c', blk['term'])] = idx
            st = (env, st[1], st[2])
        return st

    def refine(self, f, i, truth, st):
        i = f.strip(i)
        nd = f.nodes[i]
        k = nd['k']
        if k == 'UnaryOperator' and nd['op'] == '!':
            return self.refine(f, nd['sub'], not truth, st)
        if k == 'BinaryOperator' and nd['op'] in ('&&', '||'):
            if (nd['op'] == '&&') == truth:
                st = self.refine(f, nd['lhs'], truth, st)
                return None if st is None else self.refine(f, nd['rhs'], truth, st)
            a = self.refine(f, nd['lhs'], truth, st)
            b = self.refine(f, nd['rhs'], truth, st)
            if a is None:
                return b
            return a if b is None else st
        if k == 'BinaryOperator' and nd['op'] in ('==', '!='):
            for a, b in ((nd['lhs'], nd['rhs']), (nd['rhs'], nd['lhs'])):
                if f.isnull(b) and (isptr(f.nodes[f.strip(a)].get('t', '')) or isptr(f.nodes[a].get('t', ''))):
                    return self.ptr_refine(f, a, (nd['op'] == '!=') == truth, st)
        if k == 'BinaryOperator' and nd['op'] == '=' and isptr(nd.get('t', '')):
            return self.ptr_refine(f, nd['lhs'], truth, st)
        if isptr(nd.get('t', '')):
            return self.ptr_refine(f, i, truth, st)
        c = f.const(i)
        if c is not None:
            return st if bool(c) == truth else None
        if k == 'DeclRefExpr' and nd.get('dk') == 'var':
            sd = self.sym.single_defs(f)
            fl = ('var', f.key, nd['v'])
            if contradicts(st[2], canon(fl, '!=' if truth else '==', ('c', 0))):
                return None
            if any(a[0] == fl or a[2] == fl for a in st[2]) and nd['v'] in sd:
                return st       # decided when the flag was set
            if nd['v'] in sd and f.nodes[f.strip(sd[nd['v']])]['k'] in ('BinaryOperator', 'UnaryOperator') and self.stable(f, nd['v'], sd[nd['v']]):
                return self.refine(f, sd[nd['v']], truth, st)
        return self.addatoms(f, st, self.facts.atoms(f, i, truth))

    def stable(self, f, v, init):
        """pointer conditions kept in a flag stay meaningful only if the pointers are not reassigned; keep it simple: single definitions only"""
        sd = self.sym.single_defs(f)
        for x in f.walk(init):
            if x['k'] == 'DeclRefExpr' and x.get('dk') == 'var' and x['v'] not in sd and x['v'] not in f.params:
                return False
        return True

    def ptr_refine(self, f, a, nonnull, st):
        v = self.ev(f, a, st)
        if isnul(v):
            return None if nonnull else st
        if v[0] == 'T' and v[1][0] == 'A':
            return st if nonnull else None
        s = self.slot(f, a)
        if not nonnull and s is not None:
            return self.set(st, s, NUL)
        if nonnull:
            if v[0] == 'T' and v[1][0] == 'P':
                return self.set(st, ('nn', v[1]), NUL)
            return st
        x = f.nodes[f.strip(a)]
        if ('r', x['i']) in st[0]:
            return self.set(st, ('r', x['i']), NUL)
        return st

    def relevant(self, f):
        if f.key in self.rel:
            return self.rel[f.key]
        cnt = {}
        if not self.has_events(f):
            self.rel[f.key] = set()
            return self.rel[f.key]
        for b in f.blocks.values():
            if 'cond' in b and 'term' in b and len(b['s']) == 2 and f.nodes[b['term']]['k'] not in ('CXXForRangeStmt', 'CXXTryStmt'):
                for a in self.facts.atoms(f, b['cond'], True):
                    for t in (a[0], a[2]):
                        if t[0] != 'c':
                            cnt[t] = cnt.get(t, 0) + 1
        r = {t for t, c in cnt.items() if c >= 2}
        for nd in f.nodes:    # flags
            if nd['k'] == 'DeclStmt':
                for d in nd['decls']:
                    if 'v' in d and d['t'] in ('bool', 'const bool'):
                        r.add(('var', f.key, d['v']))
        self.rel[f.key] = r
        return r

    def has_events(self, f):
        """does the function obtain or release blocks at all?"""
        for nd in f.nodes:
            if nd['k'] in ('CXXNewExpr', 'CXXDeleteExpr'):
                return True
            if nd.get('callee'):
                if nd.get('cn') in ('malloc', 'calloc', 'free', 'strdup'):
                    return True
                for t in self.m.targets(nd):
                    s = self.summary(t)
                    if any(isinstance(r, tuple) and r[0] == 'F' for r in s.ret) or any(o - {'same'} for o in s.out.values()) or any(p & {'freed', 'unk'} for p in s.params.values()):
                        return True
        return False

    def live_terms(self, f):
        """block -> terms of conditions that can still be evaluated from its start on"""
        if f.key in self.live:
            return self.live[f.key]
        rel = self.relevant(f)
        use = {}
        for b in f.blocks.values():
            u = set()
            if 'cond' in b and 'term' in b and len(b['s']) == 2 and f.nodes[b['term']]['k'] not in ('CXXForRangeStmt', 'CXXTryStmt'):
                for a in self.facts.atoms(f, b['cond'], True) | self.facts.atoms(f, b['cond'], False):
                    u |= {t for t in (a[0], a[2]) if t in rel}
                for x in f.walk(b['cond']):
                    if x['k'] == 'DeclRefExpr' and x.get('dk') == 'var':
                        u |= {('var', f.key, x['v'])} & rel
            elif 'cond' in b and 'term' in b:
                t = self.facts.sym(f, b['cond'])
                u |= {t} & rel
            use[b['id']] = u
        lv = {b: set(u) for b, u in use.items()}
        ch = True
        while ch:
            ch = False
            for b in f.blocks.values():
                n = set(use[b['id']])
                for x in b['s']:
                    if x is not None:
                        n |= lv[x]
                if n != lv[b['id']]:
                    lv[b['id']] = n
                    ch = True
        self.live[f.key] = lv
        return lv

    def addatoms(self, f, st, atoms):
        rel = self.relevant(f)
        cur = st[2]
        for a in atoms:
            if contradicts(cur, a):
                return None
            if (a[0] in rel or a[2] in rel) and not any(t[0] == 'x' for t in (a[0], a[2])):
                cur = cur | {a}
        return (st[0], st[1], cur)

    # ---------------------------------------------------------------- per function
    def analyse(self, f):
        sm = Summary()
        self.stats['functions'] += 1
        if not f.blocks or f.entry is None:
            sm.ret = {'U'}
            for k, v in enumerate(f.params):
                sm.params[k] = {'unk'}
            return sm
        saved = getattr(self, 'cur_frees', None), getattr(self, 'cur_needs', None)
        self.cur_frees = {}
        self.cur_needs = {}
        for x in [x for x in self.elem_stores if x[0] == f.key]:
            del self.elem_stores[x]
        env, toks = {}, {}
        for k, v in enumerate(f.params):
            t = f.vars[v]['t']
            if isptr(t) and not t.replace(' ', '').endswith('**'):
                env[v] = ('T', ('P', k))
            elif isptrref(t):
                if t.rstrip().endswith('&'):
                    env[v] = ('T', ('P', k))
                else:
                    env[('*', v)] = ('T', ('D', k))
                    env[v] = ('T', ('P', k))
        init = (env, toks, frozenset())
        found = {}

        def sink(kind, f2, nd, msg, st):
            found.setdefault((kind, nd['i']), (kind, f2, nd, msg))

        ins = {f.entry: {canon_state(init): init}}
        done = {}
        wl = deque([f.entry])
        exits = []
        lv = self.live_terms(f)
        while wl:
            b = wl.popleft()
            blk = f.blocks[b]
            new = [(k, s) for k, s in ins.get(b, {}).items() if k not in done.setdefault(b, set())]
            for k, s in new:
                done[b].add(k)
                self.stats['states'] += 1
                sts = [s]
                retnode = None
                for e in blk['e']:
                    nxt = []
                    hbs = self.handler(f, e)
                    for x in sts:
                        for hb in hbs:
                            d = ins.setdefault(hb, {})
                            ck = canon_state(x)
                            if ck not in d and len(d) < MAXSTATES:
                                d[ck] = x
                                wl.append(hb)
                        for y in self.step(f, e, x, sink):
                            nxt.append(self.forget(f, e, y))
                    sts = dedup(nxt)
                    if not isinstance(e, dict) and f.nodes[e]['k'] == 'ReturnStmt':
                        retnode = f.nodes[e]
                    if not isinstance(e, dict) and f.nodes[e]['k'] == 'CXXThrowExpr':
                        retnode = 'throw'
                for x in sts:
                    if blk.get('noreturn'):
                        continue
                    if retnode is not None:
                        exits.append((retnode, x))
                        continue
                    if not [y for y in blk['s'] if y is not None] or (f.exit in blk['s'] and len(blk['s']) == 1):
                        if b != f.exit:
                            exits.append((None, x))
                        continue
                    for idx, nx in enumerate(blk['s']):
                        if nx is None:
                            continue
                        y = self.edge(f, blk, idx, x)
                        if y is None:
                            continue
                        if nx == f.exit:
                            exits.append((None, y))
                            continue
                        d = ins.setdefault(nx, {})
                        if y[2]:
                            lt = lv[nx]
                            y = (y[0], y[1], frozenset(x2 for x2 in y[2] if x2[0] in lt or x2[2] in lt))
                        ck = canon_state(y)
                        if ck not in d:
                            if len(d) >= MAXSTATES:
                                self.stats.setdefault('capped', set()).add(f.q)
                                continue
                            d[ck] = y
                            wl.append(nx)
        # exits
        dtor = self.ends_object(f)
        for r, st in exits:
            if r == 'throw':
                continue
            rv = None
            if r is not None and 'val' in r and isptr(f.d['ret']):
                for rvv, st2 in self.ret_values(f, r['val'], st):
                    self.finish(f, sm, r, rvv, st2, sink, dtor)
            else:
                self.finish(f, sm, r, rv, st, sink, dtor)
        for k, v in enumerate(f.params):
            sm.params.setdefault(k, {'in'})
        for tok, ks in self.cur_frees.items():
            sm.frees.setdefault(tok[1], set()).update(ks)
        if not sm.ret:
            sm.ret = {'U'}
        self.reports[f.key] = list(found.values())
        sm.needs = self.cur_needs
        self.cur_frees, self.cur_needs = saved
        return sm

    def ends_object(self, f, seen=()):
        """destructors, terminate operations, and methods that only these call"""
        if f.d.get('dtor') or f.name == 'terminate':
            return True
        if f.key in seen or not f.cls:
            return False
        if not hasattr(self, 'callers_'):
            self.callers_ = {}
            for g in self.m.fns.values():
                for nd in g.calls():
                    for t in self.m.targets(nd):
                        self.callers_.setdefault(t.key, {})[g.key] = g
        cs = self.callers_.get(f.key, {})
        return bool(cs) and all(g.cls and self.ends_object(g, seen + (f.key,)) for g in cs.values())

    def handler(self, f, e):
        """blocks of the handlers that an exception of this element would reach"""
        if isinstance(e, dict) or not f.d.get('tryblocks'):
            return ()
        key = (f.key, e)
        if key not in self.hmemo:
            r = []
            nd = f.nodes[e]
            ts = set(self.throws.node_types(f, nd))
            if nd.get('callee') and nd.get('ext') or nd['k'] == 'CXXNewExpr':
                ts.add('unspecified')      # only handlers of everything are entered
            if ts:
                child = e
                for a in f.ancestors(e):
                    if a['k'] == 'CXXTryStmt' and a.get('body') == child:
                        for b in f.d['tryblocks']:
                            if f.blocks[b].get('term') == a['i']:
                                for hi, h in enumerate(a.get('handlers', ())):
                                    c = f.nodes[h].get('tt') or '...'
                                    hit = {t for t in ts if catches(self.m, c, t)}
                                    if hit and hi < len(f.blocks[b]['s']) and f.blocks[b]['s'][hi] is not None:
                                        r.append(f.blocks[b]['s'][hi])
                                    ts -= hit
                    child = a['i']
            self.hmemo[key] = tuple(r)
        return self.hmemo[key]

    def ret_values(self, f, i, st):
        nd = f.nodes[f.strip(i)]
        if nd['k'] == 'ConditionalOperator':
            for br, truth in (('then', True), ('else', False)):
                s2 = self.refine(f, nd['cond'], truth, st)
                if s2 is not None:
                    yield from self.ret_values(f, nd[br], s2)
            return
        yield self.ev(f, i, st), st

    def finish(self, f, sm, r, rv, st, sink, dtor):
        # return value
        if rv is not None:
            if isnul(rv):
                sm.ret.add('N')
            elif rv[0] == 'T' and rv[1][0] == 'A' and st[1].get(rv[1]) == 'own':
                kind = self.kind_of(f, rv[1]) or 'new[]'
                sm.ret.add(('F', kind))
                st = self.setstatus(st, rv[1], 'esc')
            elif rv[0] == 'T' and rv[1][0] == 'P':
                sm.ret.add(rv[1])
                if st[1].get(rv[1]) == 'freed':
                    sink('use-after-free', f, r, 'a released block is returned', st)
            else:
                if rv[0] == 'T' and st[1].get(rv[1]) == 'freed':
                    sink('use-after-free', f, r, 'a released block is returned', st)
                sm.ret.add('U')
        # out parameters
        for k, v in enumerate(f.params):
            t = f.vars[v]['t']
            if not isptrref(t):
                continue
            s = v if t.rstrip().endswith('&') else ('*', v)
            ini = ('T', ('P', k)) if s == v else ('T', ('D', k))
            val = st[0].get(s, UNK)
            o = sm.out.setdefault(k, set())
            if val == ini:
                o.add('same')
                if st[1].get(ini[1]) == 'freed' and s != v:
                    pass
            elif isnul(val):
                o.add('N')
            elif val[0] == 'T' and val[1][0] == 'A' and st[1].get(val[1]) == 'own':
                o.add(('F', self.kind_of(f, val[1]) or 'new[]'))
                st = self.setstatus(st, val[1], 'esc')
            else:
                o.add('U')
        # parameters
        for k, v in enumerate(f.params):
            s = st[1].get(('P', k), 'in')
            if s == 'own':
                s = 'in'
            if s == 'in' and self.null_param(f, k, v, st):
                s = 'null'
            sm.params.setdefault(k, set()).add(s)
        # leaks
        for tok, s in st[1].items():
            if s == 'own' and tok[0] == 'A':
                sink('leak', f, f.nodes[tok[1]], 'the block obtained here is neither released nor handed on when the function returns%s' % (' at line %d' % r['l'] if isinstance(r, dict) else ''), st)
        # dangling members
        if not dtor:
            for s, v in st[0].items():
                if isinstance(s, tuple) and s[0] == 'f' and s[1] == ('this',) and v[0] == 'T' and st[1].get(v[1]) == 'freed':
                    sink('dangling', f, f.nodes[f.d['body']], 'the function returns with member %s still pointing to a released block' % s[2].split('::')[-1], st)
            for tok, x in st[1].items():
                if x == 'freed' and tok[0] == 'M' and tok[1][1] == ('this',) and tok[1] not in st[0]:
                    sink('dangling', f, f.nodes[f.d['body']], 'the function returns with member %s still pointing to a released block' % tok[1][2].split('::')[-1], st)

    def null_param(self, f, k, v, st):
        return isnul(st[0].get(v))


def summ_key(s):
    return repr((sorted((k, sorted(map(repr, v))) for k, v in s.params.items()), sorted(map(repr, s.ret)),
                 sorted((k, sorted(map(repr, v))) for k, v in s.out.items()), sorted((k, sorted(map(repr, v))) for k, v in s.frees.items()), sorted(s.needs)))


def sccs(g):
    idx, low, on, st, out, n = {}, {}, set(), [], {}, [0]
    for r in g:
        if r in idx:
            continue
        work = [(r, iter(g.get(r, ())))]
        idx[r] = low[r] = n[0]
        n[0] += 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(g.get(w, ()))))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    c.sort()
                    for w in c:
                        out[w] = c
    return out


def released_fields(m):
    """members mentioned in a release: delete, free, or an argument / receiver of a function that contains one"""
    out = set()
    fp = {f.key: frees_some_param(f) for f in m.fns.values()}
    ch = True
    while ch:       # through wrappers
        ch = False
        for f in m.fns.values():
            for nd in f.nodes:
                for t in m.targets(nd) if nd.get('callee') else ():
                    for ai, a in enumerate(nd.get('args', ())):
                        v = f.var(a)
                        if ai in fp[t.key] and v in f.params and f.params.index(v) not in fp[f.key]:
                            fp[f.key].add(f.params.index(v))
                            ch = True
    for f in m.fns.values():
        der = field_aliases(f)
        for nd in f.nodes:
            roots = []
            if nd['k'] == 'CXXDeleteExpr':
                roots = [nd['arg']]
            elif nd.get('cn') in ('free', 'munmap'):
                roots = nd.get('args', [])
            elif nd.get('callee'):
                ks = set().union(*[fp[t.key] for t in m.targets(nd) if t.key in fp])
                roots = [a for ai, a in enumerate(nd.get('args', ())) if ai in ks]
            for r in roots:
                q = f.path(r)
                while q[0] in ('e', 'd', 'a'):
                    q = q[1]
                if q[0] == 'f':
                    out.add(q[2])
                    continue
                for x in vwalk(f, r):
                    out |= mentions(f, x, der)
    return out


def frees_some_param(t):
    """parameters that are released, or whose elements are"""
    al = {v: {k} for k, v in enumerate(t.params)}
    ch = True
    while ch:
        ch = False
        for nd in t.nodes:
            if nd['k'] == 'DeclStmt':
                for d in nd['decls']:
                    if 'v' in d and 'init' in d and (isptr(d['t']) or 'iterator' in d['t']):
                        new = set().union(*[al.get(x['v'], set()) for x in vwalk(t, d['init']) if x.get('dk') == 'var'])
                        if not new <= al.get(d['v'], set()):
                            al[d['v']] = al.get(d['v'], set()) | new
                            ch = True
    out = set()
    for nd in t.nodes:
        if nd['k'] == 'CXXDeleteExpr' or nd.get('cn') == 'free' and nd.get('args'):
            for x in vwalk(t, nd['arg'] if 'arg' in nd else nd['args'][0]):
                if x['k'] == 'DeclRefExpr' and x.get('dk') == 'var':
                    out |= al.get(x['v'], set())
    return out


def mentions(f, x, der):
    r = set()
    if x['k'] == 'MemberExpr' and x.get('mk') == 'field':
        r.add(x['m'])
    elif x['k'] == 'DeclRefExpr' and x.get('dk') == 'var':
        r |= der.get(x['v'], set())
    elif x.get('callee'):
        for t in f.model.targets(x):
            for y in t.nodes:
                if y['k'] == 'ReturnStmt' and 'val' in y:
                    for q in value_paths(t, y['val']):
                        if q[0] == 'f':
                            r.add(q[2])
    return r


def value_paths(t, i, depth=0):
    """paths that an expression can stand for, locals replaced by what they are set to"""
    q = t.path(i)
    if q[0] == 'v' and q[1] not in t.params and depth < 4:
        for nd in t.nodes:
            if nd['k'] == 'DeclStmt':
                for d in nd['decls']:
                    if d.get('v') == q[1] and 'init' in d:
                        yield from value_paths(t, d['init'], depth + 1)
            elif nd['k'] == 'BinaryOperator' and nd['op'] == '=' and t.var(nd['lhs']) == q[1]:
                yield from value_paths(t, nd['rhs'], depth + 1)
    yield q


def vwalk(f, i):
    """subexpressions that the value can be part of: not the arguments of ordinary calls, sizes of allocations or indices"""
    st = [i]
    seen = set()
    while st:
        j = st.pop()
        if j in seen or j < 0:
            continue
        seen.add(j)
        nd = f.nodes[j]
        if nd['k'] == 'CXXNewExpr':
            continue
        yield nd
        skip = set()
        if nd['k'] in ('CallExpr', 'CXXMemberCallExpr'):
            skip = set(nd.get('args', ()))
            if f.model.targets(nd):
                continue
        elif nd['k'] == 'MemberExpr' and nd.get('mk') == 'field' and f.nodes[f.strip(nd['base'])]['k'] == 'MemberExpr' and f.nodes[f.strip(nd['base'])].get('mk') == 'field':
            continue
        elif nd['k'] == 'ArraySubscriptExpr':
            skip = {nd['idx']}
        elif nd['k'] == 'ConditionalOperator':
            skip = {nd['cond']}
        st.extend(c for c in nd.get('c', ()) if c not in skip)


def field_aliases(f):
    """local -> members it is an alias, iterator or element of"""
    if '_fal' in f.__dict__:
        return f.__dict__['_fal']
    der = {}
    pairs = []
    for nd in f.nodes:
        if nd['k'] == 'DeclStmt':
            pairs += [(d['v'], d['init']) for d in nd['decls'] if 'v' in d and 'init' in d]
        elif nd['k'] == 'BinaryOperator' and nd['op'] == '=':
            v = f.var(nd['lhs'])
            if v is not None:
                pairs.append((v, nd['rhs']))
        elif nd['k'] == 'CXXOperatorCallExpr' and nd.get('op') == '=' and nd.get('args'):
            o = nd.get('obj', nd['args'][0])
            v = f.var(o)
            if v is not None:
                pairs.append((v, nd['args'][-1]))
    ch = True
    while ch:
        ch = False
        for v, i in pairs:
            new = set()
            for x in vwalk(f, i):
                new |= mentions(f, x, der)
            if not new <= der.get(v, set()):
                der[v] = der.get(v, set()) | new
                ch = True
    f.__dict__['_fal'] = der
    return der


def is_c(key):
    return '::' not in key.split('(')[0]


def rooted(k, v):
    while isinstance(k, tuple) and k[0] == 'f':
        k = k[1]
    return k == ('v', v)


def contradicts(cur, a):
    x, op, y = a
    if (x, NEG[op], y) in cur or (y, NEG[op], x) in cur:
        return True
    sw = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}
    if op in ('<', '<='):
        # stored canonical form of the negation: y < x or y <= x
        neg = (y, '<=', x) if op == '<' else (y, '<', x)
        if neg in cur:
            return True
    cx, t = (x, y) if x[0] == 'c' else ((y, x) if y[0] == 'c' else (None, None))
    if cx is not None:
        for p, o, q in cur:
            c2, t2 = (p, q) if p[0] == 'c' else ((q, p) if q[0] == 'c' else (None, None))
            if t2 == t and c2 is not None:
                if op == '==' and o == '==' and c2 != cx:
                    return True
                if op == '==' and o in ('<', '<='):
                    lo = p[0] == 'c'
                    if lo and not (c2[1] < cx[1] if o == '<' else c2[1] <= cx[1]):
                        return True
                    if not lo and not (cx[1] < c2[1] if o == '<' else cx[1] <= c2[1]):
                        return True
                if o == '==' and op in ('<', '<='):
                    lo = x[0] == 'c'
                    if lo and not (cx[1] < c2[1] if op == '<' else cx[1] <= c2[1]):
                        return True
                    if not lo and not (c2[1] < cx[1] if op == '<' else c2[1] <= cx[1]):
                        return True
    return False


def canon_state(st):
    return (frozenset(st[0].items()), frozenset(st[1].items()), st[2])


def dedup(l):
    if len(l) < 2:
        return l
    d = {}
    for s in l:
        d.setdefault(canon_state(s), s)
    return list(d.values())
