"""Value flow of one field of a long-lived object: which symbolic value does it hold at each point?

Symbols: 'V0' value at function entry, 'P<k>' parameter k, 'C<n>' constant, 'M<field>' member of this at entry, 'T' anything else.
Handles save / override / restore across helpers (return values, parameters) and RAII guards (constructor/destructor pairs).
"""
from collections import deque
from .effects import is_write_op, write_target

TOPS = frozenset(('T',))


class Summary:
    __slots__ = ('exit', 'ret', 'members', 'reads')


class FieldFlow:
    def __init__(self, m, field):
        self.m, self.field = m, field
        self.memo = {}
        self.stack = set()
        # functions that may touch the field transitively
        direct = set()
        for f in m.fns.values():
            if any(nd['k'] == 'MemberExpr' and nd.get('m') == field for nd in f.nodes):
                direct.add(f.key)
        rc = {}
        for k, l in m.cg.items():
            for nd, t in l:
                rc.setdefault(t.key, set()).add(k)
        st = list(direct)
        self.touch = set(direct)
        while st:
            k = st.pop()
            for p in rc.get(k, ()):
                if p not in self.touch:
                    self.touch.add(p)
                    st.append(p)

    def is_field(self, f, i):
        nd = f.nodes[f.strip(i)]
        return nd['k'] == 'MemberExpr' and nd.get('m') == self.field

    # -- expression value
    def ev(self, f, i, st):
        i = f.strip(i)
        nd = f.nodes[i]
        if 'ev' in nd:
            return frozenset(('C%s' % nd['ev'],))
        if nd['k'] == 'MemberExpr' and nd.get('m') == self.field:
            return st['F']
        v = f.var(i)
        if v is not None:
            return st.get(v, TOPS)
        if nd['k'] == 'MemberExpr' and nd.get('mk') == 'field':
            p = f.path(i)
            if p[1] == ('this',):
                return st.get(('m', p[2]), frozenset(('M' + p[2],)))
            if p[1][0] == 'v':
                return st.get(('o', p[1][1], p[2]), TOPS)
        if nd['k'] == 'ConditionalOperator':
            return self.ev(f, nd['then'], st) | self.ev(f, nd['else'], st)
        if nd['k'] == 'InitListExpr' and len(nd.get('c', ())) == 1:
            return self.ev(f, nd['c'][0], st)
        if ('ret', i) in st:
            return st[('ret', i)]
        if nd.get('callee') and nd['k'] != 'CXXConstructExpr':
            r = frozenset()
            for t in self.m.targets(nd):
                if t.key not in self.touch:
                    return TOPS
                s = self.summary(t)
                r |= self.subst(f, nd, s.ret, st)
            return r or TOPS
        return TOPS

    def subst(self, f, nd, syms, st, members=None):
        r = frozenset()
        for s in syms:
            if s == 'V0':
                r |= st['F']
            elif s[0] == 'P':
                k = int(s[1:])
                r |= self.ev(f, nd['args'][k], st) if nd is not None and k < len(nd.get('args', ())) else TOPS
            elif s[0] == 'M':
                r |= (members or {}).get(s[1:], TOPS)
            else:
                r |= {s}
        return r

    def step(self, f, e, st):
        if isinstance(e, dict):
            if 'dtor' in e and e.get('fn') in self.touch and e.get('fn') in self.m.fns:
                v = e['dtor']
                s = self.summary(self.m.fns[e['fn']])
                mem = {k[2]: x for k, x in st.items() if isinstance(k, tuple) and k[0] == 'o' and k[1] == v}
                st = dict(st)
                st['F'] = self.subst(f, None, s.exit, st, mem)
            return st
        nd = f.nodes[e]
        k = nd['k']
        if k == 'DeclStmt':
            st = dict(st)
            for d in nd['decls']:
                if 'v' in d and 'init' in d:
                    c = f.nodes[f.strip(d['init'])]
                    if c['k'] == 'CXXConstructExpr' and c.get('callee') in self.touch and c['callee'] in self.m.fns:
                        s = self.summary(self.m.fns[c['callee']])
                        for mm, syms in s.members.items():
                            st[('o', d['v'], mm)] = self.pre(f, c, syms, st, e)
                    elif '*' not in d['t']:
                        st[d['v']] = self.ev(f, d['init'], st)
            return st
        if is_write_op(nd):
            t = write_target(nd)
            val = self.ev(f, nd['rhs'], st) if k == 'BinaryOperator' else TOPS
            st = dict(st)
            if self.is_field(f, t):
                st['F'] = val
            else:
                v = f.var(t)
                if v is not None:
                    st[v] = val
                else:
                    p = f.path(t)
                    if p[0] == 'f' and p[1] == ('this',):
                        st[('m', p[2])] = val
                    elif p[0] == 'f' and p[1][0] == 'v':
                        st[('o', p[1][1], p[2])] = val
            return st
        if nd.get('callee'):
            F = None
            R = None
            for t in self.m.targets(nd):
                if t.key in self.touch:
                    s = self.summary(t)
                    x = self.subst(f, nd, s.exit, st)
                    y = self.subst(f, nd, s.ret, st)
                    R = y if R is None else R | y
                    F = x if F is None else F | x
            # the address of the field escapes to the callee
            for a in nd.get('args', ()):
                x = f.nodes[f.strip(a)]
                if x['k'] == 'UnaryOperator' and x['op'] == '&' and self.is_field(f, x['sub']):
                    F = TOPS
            if F is not None:
                st = dict(st)
                st['F'] = F
                st[('ret', e)] = R or TOPS
        return st

    def pre(self, f, c, syms, st, e):
        return self.subst(f, c, syms, st.get('pre', st) if False else self._before(f, c, st))

    def _before(self, f, c, st):
        # the construct expression precedes its DeclStmt in the block: use the state recorded at the call
        return st.get(('pre', c['i']), st)

    def summary(self, f, visit=None):
        if f.key in self.memo and visit is None:
            return self.memo[f.key]
        s = Summary()
        s.exit, s.ret, s.members, s.reads = frozenset(('V0',)), frozenset(), {}, []
        if f.key in self.stack or not f.blocks or f.key not in self.touch:
            s.ret = TOPS
            return s
        self.stack.add(f.key)
        init = {'F': frozenset(('V0',))}
        for i, v in enumerate(f.params):
            init[v] = frozenset(('P%d' % i,))
        ins = {f.entry: init}
        wl = deque([f.entry])
        exits = {}
        rets = frozenset()
        first = True
        while wl:
            b = wl.popleft()
            st = ins[b]
            for e in f.blocks[b]['e']:
                if not isinstance(e, dict):
                    nd = f.nodes[e]
                    if nd['k'] == 'CXXConstructExpr':
                        st = dict(st)
                        st[('pre', e)] = {k: v for k, v in st.items() if not (isinstance(k, tuple) and k[0] in ('pre', 'ret'))}
                    if nd['k'] == 'ReturnStmt' and 'val' in nd:
                        rets |= self.ev(f, nd['val'], st)
                st = self.step(f, e, st)
            for x in f.blocks[b]['s']:
                if x is None:
                    continue
                st2 = {k: v for k, v in st.items() if not (isinstance(k, tuple) and k[0] in ('pre', 'ret'))}
                if x not in ins:
                    ins[x] = st2
                    wl.append(x)
                else:
                    o = ins[x]
                    j = {k: o[k] | st2[k] for k in o if k in st2}
                    if j != o:
                        ins[x] = j
                        wl.append(x)
        s.exit = ins[f.exit]['F'] if f.exit in ins else frozenset(('V0',))
        s.ret = rets
        if f.exit in ins:
            s.members = {k[1]: v for k, v in ins[f.exit].items() if isinstance(k, tuple) and k[0] == 'm'}
        if f.d.get('ctor'):
            for ini in f.d.get('inits', []):
                if 'm' in ini:
                    s.members.setdefault(ini['m'], self.ev(f, ini['e'], init))
        self.stack.discard(f.key)
        if visit is not None:
            visit(f, ins)
        self.memo[f.key] = s
        return s

    # -- dependency reads: reads at which the field may hold the value configured by the user
    def deps(self, roots):
        """[(fn, node)] reads of the user's value in the closure of roots, saved-and-restored copies excluded"""
        out = []
        seen = set()
        work = [(r, True) for r in roots if r.key in self.touch]   # True: field holds the user's value at entry
        while work:
            f, user = work.pop()
            if (f.key, user) in seen:
                continue
            seen.add((f.key, user))
            box = {}
            self.summary(f, visit=lambda g, ins: box.update(ins))
            for b, st in box.items():
                for e in f.blocks[b]['e']:
                    isuser = any(x == 'V0' for x in st['F']) and user or any(x[0] in 'PTM' for x in st['F'])
                    if isinstance(e, dict):
                        if e.get('fn') in self.touch and e.get('fn') in self.m.fns:
                            work.append((self.m.fns[e['fn']], isuser))
                    else:
                        nd = f.nodes[e]
                        if nd['k'] == 'MemberExpr' and nd.get('m') == self.field and isuser and not self.is_target(f, e):
                            if not self.only_restores(f, e):
                                out.append((f, nd))
                        for t in (self.m.targets(nd) if nd.get('callee') else ()):
                            if t.key in self.touch:
                                work.append((t, isuser))
                        if nd['k'] == 'LambdaExpr' and nd.get('lambda') in self.touch:
                            work.append((self.m.fns[nd['lambda']], isuser))
                        if nd['k'] == 'CXXDeleteExpr' and nd.get('dtor'):
                            for k in {nd['dtor']} | self.m.overriders.get(nd['dtor'], set()):
                                if k in self.touch and k in self.m.fns:
                                    work.append((self.m.fns[k], isuser))
                    st = self.step(f, e, st)
        return out

    def is_target(self, f, i):
        p = f.parent.get(i)
        return p is not None and f.nodes[p]['k'] == 'BinaryOperator' and f.nodes[p].get('op') == '=' and f.strip(f.nodes[p]['lhs']) == i

    def only_restores(self, f, i, depth=0):
        """the value read at node i is only kept in order to be written back to the same field"""
        if depth > 4:
            return False
        p = f.parent.get(i)
        while p is not None and f.nodes[p]['k'] in ('CStyleCastExpr', 'CXXStaticCastExpr', 'ImplicitCastExpr', 'ParenExpr', 'InitListExpr'):
            i, p = p, f.parent.get(p)
        # member initialiser of a guard
        for ini in f.d.get('inits', []):
            if 'm' in ini and f.strip(ini['e']) == f.strip(i):
                return self.member_only_restores(f.cls, ini['m'])
        if p is None:
            return False
        nd = f.nodes[p]
        if nd['k'] == 'DeclStmt':
            vs = [d['v'] for d in nd['decls'] if 'init' in d and i in {x['i'] for x in f.walk(d['init'])} and f.strip(d['init']) == f.strip(i)]
            return bool(vs) and all(self.var_only_restores(f, v, depth) for v in vs)
        if nd['k'] == 'BinaryOperator' and nd.get('op') == '=' and f.strip(nd['rhs']) == f.strip(i):
            v = f.var(nd['lhs'])
            if v is not None:
                return self.var_only_restores(f, v, depth)
            if self.is_field(f, nd['lhs']):
                return True
            q = f.path(nd['lhs'])
            if q[0] == 'f' and q[1] == ('this',):
                return self.member_only_restores(f.cls, q[2])
        if nd['k'] == 'ReturnStmt':
            ok = False
            for g in self.m.fns.values():
                for c in g.calls():
                    if c.get('callee') == f.key:
                        if not self.only_restores(g, c['i'], depth + 1):
                            return False
                        ok = True
            return ok
        if nd.get('callee') and i in nd.get('args', ()):
            ai = nd['args'].index(i)
            ts = self.m.targets(nd)
            return bool(ts) and all(ai < len(t.params) and self.var_only_restores(t, t.params[ai], depth + 1) for t in ts)
        return False

    def var_only_restores(self, f, v, depth):
        uses = [nd for nd in f.nodes if nd['k'] == 'DeclRefExpr' and nd.get('dk') == 'var' and nd['v'] == v]
        n = 0
        for u in uses:
            p = f.parent.get(u['i'])
            if p is not None and f.nodes[p]['k'] == 'BinaryOperator' and f.nodes[p].get('op') == '=' and f.strip(f.nodes[p]['lhs']) == u['i']:
                continue   # assigned to
            # written back, possibly under a test of the saved value itself ("if (saved) field = saved;" writes nothing but the saved value)
            if not self.only_restores(f, u['i'], depth + 1):
                return False
            n += 1
        return True

    def member_only_restores(self, cls, fld):
        for g in self.m.fns.values():
            if g.cls != cls:
                continue
            for nd in g.nodes:
                if nd['k'] == 'MemberExpr' and nd.get('m') == fld and not self.is_target_any(g, nd['i']):
                    if not self.only_restores(g, nd['i'], 2):
                        return False
        return True

    @staticmethod
    def is_target_any(f, i):
        p = f.parent.get(i)
        return p is not None and f.nodes[p]['k'] == 'BinaryOperator' and f.nodes[p].get('op') == '=' and f.strip(f.nodes[p]['lhs']) == i
