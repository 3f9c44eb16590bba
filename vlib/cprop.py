"""Constant propagation along the paths of small functions, with helpers inlined.

Values: int (known), 'nz' (known not to be zero), ('addr', key), ('ptr', name) a known non-null object, None (unknown).
State: location -> value, where a location is a field's qualified name or ('v', function key, variable).
"""
MAXPATHS = 600


def truth(v):
    if v is None:
        return None
    if isinstance(v, int):
        return v != 0
    return True


class CProp:
    def __init__(self, m, eff=None, inline=None, depth=4, track=None, maxpaths=MAXPATHS):
        self.m = m
        self.eff = eff
        self.inline = inline or (lambda g: len(g.blocks) <= 24)
        self.depth = depth
        self.cut = 0
        self.maxpaths = maxpaths
        self.track = track
        self._w = {}

    # ---- expressions
    def loc(self, f, i, st):
        """location that an lvalue denotes, or None"""
        i = f.strip(i)
        nd = f.nodes[i]
        if nd['k'] == 'DeclRefExpr' and nd.get('dk') == 'var':
            t = f.vars[nd['v']]['t'].rstrip()
            if t.endswith('&'):
                r = st.get(('v', f.key, nd['v']))
                if isinstance(r, tuple) and r[0] == 'addr':
                    return r[1]
            return ('v', f.key, nd['v'])
        if nd['k'] == 'MemberExpr':
            p = f.path(i)
            return p[2] if p[0] == 'f' else None
        if nd['k'] == 'UnaryOperator' and nd['op'] == '*':
            r = self.ev(f, nd['sub'], st)
            return r[1] if isinstance(r, tuple) and r[0] == 'addr' else None
        return None

    def ev(self, f, i, st):
        i = f.strip(i)
        nd = f.nodes[i]
        k = nd['k']
        if ('t', f.key, i) in st:
            return st[('t', f.key, i)]
        if 'ev' in nd and isinstance(nd['ev'], int):
            return nd['ev']
        if f.isnull(i):
            return 0
        if k in ('DeclRefExpr', 'MemberExpr'):
            l = self.loc(f, i, st)
            if l is not None and l in st:
                return st[l]
            c = f.const(i)
            return c
        if k == 'UnaryOperator':
            if nd['op'] == '!':
                t = truth(self.ev(f, nd['sub'], st))
                return None if t is None else int(not t)
            if nd['op'] == '&':
                l = self.loc(f, nd['sub'], st)
                return ('addr', l) if l is not None else ('ptr', None)
            if nd['op'] == '*':
                l = self.loc(f, i, st)
                return st.get(l) if l is not None else None
            if nd['op'] == '-':
                v = self.ev(f, nd['sub'], st)
                return -v if isinstance(v, int) else None
            return None
        if k == 'BinaryOperator':
            op = nd['op']
            if op == '=':
                return self.ev(f, nd['rhs'], st)
            if op == ',':
                return self.ev(f, nd['rhs'], st)
            a, b = self.ev(f, nd['lhs'], st), self.ev(f, nd['rhs'], st)
            if op in ('&&', '||'):
                x, y = truth(a), truth(b)
                if op == '&&':
                    return 0 if x is False or y is False else 1 if x and y else None
                return 1 if x or y else 0 if x is False and y is False else None
            if op in ('==', '!='):
                if isinstance(a, int) and isinstance(b, int):
                    r = a == b
                elif (a == 0 and truth(b)) or (b == 0 and truth(a)):
                    r = False
                else:
                    return None
                return int(r == (op == '=='))
            if isinstance(a, int) and isinstance(b, int):
                try:
                    return int({'+': a + b, '-': a - b, '*': a * b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '&': a & b, '|': a | b, '^': a ^ b}[op])
                except KeyError:
                    return None
            return None
        if k == 'ConditionalOperator':
            t = truth(self.ev(f, nd['cond'], st))
            if t is None:
                x, y = self.ev(f, nd['then'], st), self.ev(f, nd['else'], st)
                return x if x == y else 'nz' if truth(x) and truth(y) else None
            return self.ev(f, nd['then' if t else 'else'], st)
        if k == 'CXXNewExpr':
            return ('ptr', nd.get('at'), self.ctor_args(f, nd, st))
        if 'sub' in nd:
            v = self.ev(f, nd['sub'], st)
            if nd.get('t') in ('bool', 'const bool') and v is not None:
                return int(bool(truth(v)))
            return v
        return None

    def ctor_args(self, f, nd, st):
        for x in f.walk(nd['i']):
            if x['k'] == 'CXXConstructExpr':
                return tuple(self.ev(f, a, st) for a in x.get('args', ()))
        return ()

    def refine(self, f, i, tr, st):
        i = f.strip(i)
        nd = f.nodes[i]
        v = truth(self.ev(f, i, st))
        if v is not None:
            return st if v == tr else None
        if nd['k'] == 'UnaryOperator' and nd['op'] == '!':
            return self.refine(f, nd['sub'], not tr, st)
        if nd['k'] == 'BinaryOperator' and nd['op'] in ('==', '!='):
            for a, b in ((nd['lhs'], nd['rhs']), (nd['rhs'], nd['lhs'])):
                c = self.ev(f, b, st)
                l = self.loc(f, a, st)
                if isinstance(c, int) and l is not None:
                    eq = tr == (nd['op'] == '==')
                    if eq:
                        return dict(st, **{}) | {l: c}
                    if c == 0:
                        return dict(st) | {l: 'nz'}
                    if c == 1 and st.get(('bool', l)):
                        return dict(st) | {l: 0}
            return st
        l = self.loc(f, i, st)
        if l is not None:
            return dict(st) | {l: 'nz' if tr else 0}
        return st

    # ---- statements
    def step(self, f, e, st, depth):
        """list of successor states"""
        if isinstance(e, dict):
            if 'minit' in e and 'e' in e:
                st = dict(st)
                st[e['minit']] = self.ev(f, e['e'], st)
            return [st]
        nd = f.nodes[e]
        k = nd['k']
        if k == 'DeclStmt':
            st = dict(st)
            for d in nd['decls']:
                if 'v' in d:
                    l = ('v', f.key, d['v'])
                    if 'init' in d:
                        if d['t'].rstrip().endswith('&'):
                            ll = self.loc(f, d['init'], st)
                            st[l] = ('addr', ll) if ll is not None else None
                        else:
                            st[l] = self.ev(f, d['init'], st)
                    else:
                        st[l] = None
            return [st]
        if k == 'BinaryOperator' and nd['op'] == '=' or k == 'CompoundAssignOperator' or k == 'UnaryOperator' and nd['op'] in ('++', '--'):
            tgt = nd['lhs'] if 'lhs' in nd else nd['sub']
            l = self.loc(f, tgt, st)
            if l is None:
                x = f.nodes[f.strip(tgt)]
                if x['k'] == 'BinaryOperator' and x.get('op') in ('->*', '.*') or x['k'] == 'UnaryOperator' and x.get('op') == '*' and 'char' not in x.get('t', ''):
                    st = dict(st)
                    st['#unk'] = True
            else:
                st = dict(st)
                if k == 'BinaryOperator':
                    v = self.ev(f, nd['rhs'], st)
                    if nd.get('t') in ('bool',) and v is not None:
                        v = int(bool(truth(v)))
                    st[l] = v
                elif k == 'CompoundAssignOperator':
                    a, b = st.get(l), self.ev(f, nd['rhs'], st)
                    op = nd['op'][:-1]
                    st[l] = (a | b if op == '|' else a & b if op == '&' else a + b if op == '+' else None) if isinstance(a, int) and isinstance(b, int) else None
                else:
                    st[l] = None
                if isinstance(l, str) or l[0] != 'v':
                    st['#w'] = st.get('#w', frozenset()) | {l}
            return [st]
        if nd.get('callee'):
            ts = self.m.targets(nd)
            if not ts:
                return [st]
            sts = [st]
            for g in ts:
                nxt = []
                for s in sts:
                    nxt += self.call(f, nd, g, s, depth)
                sts = nxt[:self.maxpaths]
            return sts
        return [st]

    def call(self, f, nd, g, st, depth):
        if depth >= self.depth or not g.blocks or not self.inline(g):
            st = dict(st)
            if self.eff is not None:
                if g.key not in self._w:
                    self._w[g.key] = frozenset(self.eff.transitive([g])[1])
                for q in self._w[g.key]:
                    if q in st:
                        st[q] = None
                        st['#w'] = st.get('#w', frozenset()) | {q}
            return [st]
        args = {}
        for ai, a in enumerate(nd.get('args', ())):
            if ai < len(g.params):
                if g.vars[g.params[ai]]['t'].rstrip().endswith('&') and self.loc(f, a, st) is not None:
                    args[g.params[ai]] = ('addr', self.loc(f, a, st))
                else:
                    args[g.params[ai]] = self.ev(f, a, st)
        out = []
        for ret, s2 in self.run(g, args, st, depth + 1):
            s2 = {k: v for k, v in s2.items() if not (isinstance(k, tuple) and k[0] in ('v', 't') and k[1] == g.key)
                  and (self.track is None or not isinstance(k, str) or k[0] == '#' or k in self.track)}
            s2[('t', f.key, nd['i'])] = ret
            out.append(s2)
        return out

    def run(self, f, args, st, depth=0):
        """[(returned value, state)] over the paths of f"""
        st = dict(st)
        for v, x in args.items():
            st[('v', f.key, v)] = x
        out = []
        work = [(f.entry, st, {})]
        n = 0
        done = set()
        while work:
            b, s, seen = work.pop()
            key = (b, seen.get(b, 0), frozenset(s.items()))
            if key in done:
                continue
            done.add(key)
            n += 1
            if n > self.maxpaths * 10 or len(out) > self.maxpaths:
                self.cut += 1
                break
            if seen.get(b, 0) >= 2:
                continue
            seen = dict(seen)
            seen[b] = seen.get(b, 0) + 1
            blk = f.blocks[b]
            if b == f.exit:
                out.append((s.get('#ret'), {k: v for k, v in s.items() if k != '#ret'}))
                continue
            sts = [s]
            dead = False
            for e in blk['e']:
                nx = []
                for x in sts:
                    nx += self.step(f, e, x, depth)
                sts = nx
                if isinstance(e, int):
                    if f.nodes[e]['k'] == 'ReturnStmt':
                        sts = [dict(x) | {'#ret': self.ev(f, f.nodes[e]['val'], x) if 'val' in f.nodes[e] else None} for x in sts]
                    elif f.nodes[e]['k'] == 'CXXThrowExpr':
                        dead = True
            if dead:
                continue
            for x in sts:
                for idx, s2 in enumerate(blk['s']):
                    if s2 is None:
                        continue
                    y = self.edge(f, blk, idx, x)
                    if y is not None:
                        work.append((s2, y, seen))
        return out

    def edge(self, f, blk, idx, st):
        if 'term' not in blk or 'cond' not in blk:
            return st
        t = f.nodes[blk['term']]
        if t['k'] == 'SwitchStmt':
            v = self.ev(f, blk['cond'], st)
            vals = {}
            for j, s in enumerate(blk['s']):
                vals[j] = self.cases(f, s)
            mine = vals.get(idx)
            if isinstance(v, int):
                hit = [j for j, c in vals.items() if c is not None and v in c]
                if hit:
                    return st if idx in hit else None
                return st if mine is None else None
            return st
        if t['k'] in ('CXXTryStmt', 'CXXForRangeStmt') or len(blk['s']) != 2:
            return st
        return self.refine(f, blk['cond'], idx == 0, st)

    @staticmethod
    def cases(f, b):
        """case values with which a switch enters block b; None: default or after the switch"""
        if b is None:
            return ()
        lab = f.blocks[b].get('label')
        out = set()
        while lab is not None:
            nd = f.nodes[lab]
            if nd['k'] == 'CaseStmt' and 'cval' in nd:
                out.add(nd['cval'])
                sub = nd.get('sub')
                lab = sub if sub is not None and f.nodes[sub]['k'] in ('CaseStmt', 'DefaultStmt') else None
            elif nd['k'] == 'DefaultStmt':
                return None
            else:
                break
        return out or None
