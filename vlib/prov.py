"""Where values come from, path by path: provenance terms of results, arguments and stored values in small functions.

Path-sensitive dataflow over the CFG (each block at most `unroll` times per path); helpers accepted by `inline` are entered, every other
call is an opaque term. Branch conditions are kept as facts about terms and contradict each other only syntactically.

Terms: ('p', k) parameter; ('c', n); ('this',); ('g', name); ('fld', base, field); ('[]', base, index); ('call', name, args, nth);
('out', name, arg index, nth) what a call stored through an argument; ('new', n, size); ('loc', frame, var) address of a local;
('+'|'*', terms); ('b'+op, a, b); ('cmp', op, a, b); ('s', text) string literal; ('x', ...) unknown.
"""
from .effects import is_write_op, write_target
from .sym import norm

FLIP = {'>': '<', '>=': '<='}


class St:
    __slots__ = ('env', 'mem', 'facts', 'trace', 'tmp', 'ret', 'n', 'deleted')

    def __init__(self):
        self.env, self.mem, self.facts, self.trace, self.tmp = {}, {}, {}, (), {}
        self.ret = None
        self.n = 0
        self.deleted = ()

    def copy(self):
        s = St()
        s.env, s.mem, s.facts, s.trace, s.tmp, s.ret, s.n, s.deleted = dict(self.env), dict(self.mem), dict(self.facts), self.trace, dict(self.tmp), self.ret, self.n, self.deleted
        return s


def atom(t):
    """(atom, polarity) of a condition term"""
    if t[0] == 'cmp':
        op, a, b = t[1], t[2], t[3]
        pol = True
        if op in ('>', '>='):
            op, a, b = FLIP[op], b, a
        if op == '!=':
            op, pol = '==', not pol
        if op == '<=':
            op, a, b, pol = '<', b, a, not pol
        if op == '<' and a == ('c', 0):
            op, a, pol = '==', b, not pol
            b = ('c', 0)
        elif op == '<' and b == ('c', 1) and a[0] != 'c':
            op, b = '==', ('c', 0)
        if op == '==' and repr(a) > repr(b):
            a, b = b, a
        return (op, a, b), pol
    if t[0] == 'not':
        x, p = atom(t[1])
        return x, not p
    a, b = ('c', 0), t
    if repr(a) > repr(b):
        a, b = b, a
    return ('==', a, b), False


def smart(nd):
    c = nd.get('callee') or ''
    return c.startswith('std::unique_ptr') or c.startswith('std::shared_ptr') or c.startswith('std::__shared_ptr') or c.startswith('std::__uniq_ptr')


def unknown(t):
    return t is None or t[0] == 'x' or any(isinstance(y, tuple) and y and (unknown(y) if isinstance(y[0], str) else any(isinstance(z, tuple) and unknown(z) for z in y)) for y in t[1:])


class Prov:
    def __init__(self, m, inline, unroll=3, maxpaths=3000, opaque_out=True):
        self.m, self.inline, self.unroll, self.maxpaths = m, inline, unroll, maxpaths
        self.cut = 0

    # ---- truth
    def truth(self, t, st):
        if t[0] == 'c':
            return t[1] != 0
        if t[0] in ('new', 'loc', 's', 'this'):
            return True
        if t[0] == 'not':
            x = self.truth(t[1], st)
            return None if x is None else not x
        a, pol = atom(t)
        op, x, y = a
        v = None
        if x[0] == 'c' and y[0] == 'c':
            v = x[1] == y[1] if op == '==' else x[1] < y[1]
        elif op == '==' and x == y:
            v = True
        elif op == '<' and x == y:
            v = False
        elif op == '==' and ('c', 0) in (x, y) and (y if x == ('c', 0) else x)[0] in ('new', 'loc', 's', 'this'):
            v = False
        elif a in st.facts:
            v = st.facts[a]
        elif op == '==' and (x[0] == 'c' or y[0] == 'c'):
            c, z = (x, y) if x[0] == 'c' else (y, x)
            for (o, p, q), val in st.facts.items():
                if o == '==' and val and z in (p, q):
                    other = q if p == z else p
                    if other[0] == 'c' and other != c:
                        v = False
                if o == '<' and val and q == z and c == ('c', 0):
                    v = False          # something is below it
        elif op == '<':
            for (o, p, q), val in st.facts.items():
                if o == '==' and val:
                    for k, w in ((p, q), (q, p)):
                        if w[0] == 'c' and k in (x, y):
                            x2, y2 = (w if x == k else x), (w if y == k else y)
                            if x2[0] == 'c' and y2[0] == 'c':
                                v = x2[1] < y2[1]
                elif o == '<' and val and p == y and q == x:
                    v = False
                elif o == '<' and p == x and x[0] != 'c' and q[0] == 'c' and y[0] == 'c':
                    if val and q[1] <= y[1]:
                        v = True
                    elif not val and q[1] >= y[1]:
                        v = False
                elif o == '<' and q == y and y[0] != 'c' and p[0] == 'c' and x[0] == 'c':
                    if val and p[1] >= x[1]:
                        v = True
                    elif not val and p[1] <= x[1]:
                        v = False
        return None if v is None else v == pol

    def assume(self, t, val, st):
        tv = self.truth(t, st)
        if tv is not None:
            return st if tv == val else None
        while t[0] == 'not':
            t, val = t[1], not val
        a, pol = atom(t)
        s = st.copy()
        s.facts[a] = (val == pol)
        return s

    # ---- expressions
    def lv(self, f, fr, i, st):
        """location of an lvalue: ('v', frame, var) or a memory term"""
        i = f.strip(i)
        nd = f.nodes[i]
        k = nd['k']
        if k == 'DeclRefExpr' and nd.get('dk') == 'var':
            v = nd['v']
            if f.vars[v]['t'].rstrip().endswith('&'):
                r = st.env.get((fr, v, '&'))
                if r is not None:
                    return r
            return ('v', fr, v)
        if k == 'MemberExpr' and nd.get('mk') == 'field':
            return ('fld', self.ev(f, fr, nd['base'], st), nd['m'])
        if k == 'ArraySubscriptExpr':
            return self.index(self.ev(f, fr, nd['base'], st), self.ev(f, fr, nd['idx'], st))
        if k == 'UnaryOperator' and nd['op'] == '*':
            b = self.ev(f, fr, nd['sub'], st)
            if b[0] == 'loc':
                return ('v', b[1], b[2])
            return self.index(b, ('c', 0))
        if k == 'DeclRefExpr' and nd.get('dk') == 'global':
            return ('g', nd['g'])
        if k == 'UnaryOperator' and nd['op'] in ('++', '--') and 'sub' in nd:
            return self.lv(f, fr, nd['sub'], st)
        if k in ('BinaryOperator', 'CompoundAssignOperator') and nd.get('op', '').endswith('=') and nd.get('op') not in ('==', '!=', '<=', '>='):
            return self.lv(f, fr, nd['lhs'], st)
        return ('x', f.key, i)

    @staticmethod
    def index(b, x):
        if b[0] == '+':
            # one pointer term and offsets: the pointer is the term that is not a constant or an integer-like call
            ps = [t for t in b[1] if t[0] in ('p', 'new', 'fld', 'g', '[]') or t[0] == 'call' and t[1] not in ('wcslen', 'strlen', 'size', 'length', 'distance')]
            if len(ps) == 1:
                rest = [t for t in b[1] if t is not ps[0]]
                off = rest[0] if len(rest) == 1 else ('+', tuple(rest))
                return ('[]', ps[0], norm('+', off, x))
        return ('[]', b, x)

    def load(self, loc, st):
        if loc[0] == 'v':
            return st.env.get(loc[1:], ('x', 'undef') + loc[1:])
        return st.mem.get(loc, loc)

    def store(self, loc, val, st):
        if loc[0] == 'v':
            st.env[loc[1:]] = val
        else:
            st.mem[loc] = val

    def ev(self, f, fr, i, st):
        i = f.strip(i)
        nd = f.nodes[i]
        if (fr, i) in st.tmp:
            return st.tmp[fr, i]
        k = nd['k']
        if 'ev' in nd and isinstance(nd['ev'], int) and k != 'DeclRefExpr':
            return ('c', nd['ev'])
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr') or nd.get('nul'):
            return ('c', 0)
        if k == 'StringLiteral':
            return ('s', nd.get('s', ''))
        if k == 'CXXThisExpr':
            return st.env.get((fr, 'this'), ('this',))
        if k == 'DeclRefExpr':
            if nd.get('dk') == 'var':
                l = self.lv(f, fr, i, st)
                return self.load(l, st)
            if isinstance(nd.get('ev'), int):
                return ('c', nd['ev'])
            if nd.get('dk') == 'global':
                return st.mem.get(('g', nd['g']), ('g', nd['g']))
            return ('x', nd.get('n'))
        if k == 'MemberExpr':
            l = self.lv(f, fr, i, st)
            return self.load(l, st)
        if k == 'ArraySubscriptExpr':
            return self.load(self.lv(f, fr, i, st), st)
        if k == 'UnaryOperator':
            op = nd['op']
            if op == '*':
                return self.load(self.lv(f, fr, i, st), st)
            if op == '&':
                l = self.lv(f, fr, nd['sub'], st)
                if l[0] == 'v':
                    return ('loc',) + l[1:]
                if l[0] == '[]':
                    return norm('+', l[1], l[2])
                return ('&', l)
            a = self.ev(f, fr, nd['sub'], st)
            if op == '!':
                t = self.truth(a, st)
                return ('c', int(not t)) if t is not None else ('not', a)
            if op == '-':
                return ('c', -a[1]) if a[0] == 'c' else ('u-', a)
            return ('u' + op, a)
        if k == 'BinaryOperator':
            op = nd['op']
            if op == ',':
                return self.ev(f, fr, nd['rhs'], st)
            if op in ('&&', '||'):
                a = self.truth(self.ev(f, fr, nd['lhs'], st), st)
                if a is not None:
                    if (op == '&&') != a:
                        return ('c', int(a))
                    b = self.ev(f, fr, nd['rhs'], st)
                    tb = self.truth(b, st)
                    return ('c', int(tb)) if tb is not None else b
                return ('x', f.key, i)
            a, b = self.ev(f, fr, nd['lhs'], st), self.ev(f, fr, nd['rhs'], st)
            if op in ('==', '!=', '<', '>', '<=', '>='):
                t = ('cmp', op, a, b)
                v = self.truth(t, st)
                return ('c', int(v)) if v is not None else t
            if a[0] == 'c' and b[0] == 'c' and op in ('/', '%') and b[1]:
                return ('c', a[1] // b[1] if op == '/' else a[1] % b[1])
            return norm(op, a, b)
        if k == 'ConditionalOperator':
            t = self.truth(self.ev(f, fr, nd['cond'], st), st)
            if t is None:
                return ('x', f.key, i)
            return self.ev(f, fr, nd['then' if t else 'else'], st)
        if k == 'CXXNewExpr':
            return ('new', 0, self.ev(f, fr, nd['size'], st) if 'size' in nd else ('c', 1), i)
        if 'sub' in nd:
            return self.ev(f, fr, nd['sub'], st)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and nd.get('args') and (nd.get('copy') or smart(nd)):
            return self.ev(f, fr, nd['args'][0], st)
        return ('x', f.key, i)

    # ---- statements
    def step(self, f, fr, e, st, depth):
        if isinstance(e, dict):
            return [st]
        nd = f.nodes[e]
        k = nd['k']
        if k == 'DeclStmt':
            s = st.copy()
            for d in nd['decls']:
                if 'v' not in d:
                    continue
                if 'init' in d:
                    if d['t'].rstrip().endswith('&'):
                        s.env[fr, d['v'], '&'] = self.lv(f, fr, d['init'], s)
                    else:
                        s.env[fr, d['v']] = self.ev(f, fr, d['init'], s)
                else:
                    s.env[fr, d['v']] = ('x', 'uninit', d['v'])
            return [s]
        if is_write_op(nd):
            s = st.copy()
            l = self.lv(f, fr, write_target(nd), s)
            if k == 'BinaryOperator':
                v = self.ev(f, fr, nd['rhs'], s)
                if nd.get('t') == 'bool':
                    t = self.truth(v, s)
                    v = ('c', int(t)) if t is not None else v
                self.store(l, v, s)
                s.tmp[fr, e] = v
            else:
                old = self.load(l, s)
                if k == 'UnaryOperator':
                    new = norm('+', old, ('c', 1 if nd['op'] == '++' else -1))
                    s.tmp[fr, e] = old if nd.get('post') else new
                else:
                    new = norm(nd['op'][:-1], old, self.ev(f, fr, nd['rhs'], s))
                    s.tmp[fr, e] = new
                self.store(l, new, s)
            return [s]
        if k == 'CXXNewExpr':
            s = st.copy()
            s.n += 1
            s.tmp[fr, e] = ('new', s.n, self.ev(f, fr, nd['size'], s) if 'size' in nd else ('c', 1))
            return [s]
        if k == 'CXXDeleteExpr':
            s = st.copy()
            s.deleted = s.deleted + (self.ev(f, fr, nd['arg'], s),)
            return [s]
        if nd.get('callee') and k not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return self.call(f, fr, nd, st, depth)
        return [st]

    def call(self, f, fr, nd, st, depth):
        ts = self.m.targets(nd)
        args = tuple(self.ev(f, fr, a, st) for a in nd.get('args', ()))
        obj = self.ev(f, fr, nd['obj'], st) if 'obj' in nd else None
        if len(ts) == 1 and depth < 8 and ts[0].blocks and self.inline(ts[0]):
            g = ts[0]
            s = st.copy()
            s.n += 1
            fr2 = fr + (s.n,)
            for ai, a in enumerate(nd.get('args', ())):
                if ai < len(g.params):
                    if g.vars[g.params[ai]]['t'].rstrip().endswith('&'):
                        s.env[fr2, g.params[ai], '&'] = self.lv(f, fr, a, s)
                    else:
                        s.env[fr2, g.params[ai]] = args[ai]
            if obj is not None:
                s.env[fr2, 'this'] = obj
            out = []
            for s2 in self.paths(g, fr2, s, depth + 1):
                s3 = s2
                s3.tmp[fr, nd['i']] = s2.ret if s2.ret is not None else ('x', 'void')
                s3.ret = None
                out.append(s3)
            return out
        s = st.copy()
        name = nd.get('cn') or '?'
        if obj is not None and smart(nd) and obj[0] != 'x':
            if name in ('get', 'release', 'operator->', 'operator bool'):
                s.tmp[fr, nd['i']] = obj
                return [s]
            if name in ('operator*', 'operator[]'):
                s.tmp[fr, nd['i']] = self.load(self.index(obj, args[0] if args else ('c', 0)), s)
                return [s]
        full = args if obj is None else (obj,) + args
        pure = name in ('wcslen', 'strlen', 'min', 'max', 'wcscmp', 'strcmp', 'size', 'length', 'empty')
        nth = 0 if pure else sum(1 for t in s.trace if t[0] == name and t[1] == full)
        r = ('call', name, full, nth)
        s.trace = s.trace + ((name, full, r, nd.get('callee'), f.where(nd)),)
        s.tmp[fr, nd['i']] = r
        # what the call may store through its arguments
        pts = nd.get('pt', [])
        for ai, a in enumerate(args):
            t = pts[ai] if ai < len(pts) else ''
            if t.rstrip().endswith('&') and (not t.startswith('const ') or '*' in t) and not t.rstrip().rstrip('&').rstrip().endswith('const'):
                l = self.lv(f, fr, nd['args'][ai], s)
                if l[0] == 'v':
                    s.env[l[1:]] = ('out', r, ai)
                else:
                    s.mem[l] = ('out', r, ai)
            elif '*' in t and not (t.startswith('const ') and t.count('*') == 1):
                if a[0] == 'loc':
                    s.env[a[1:]] = ('out', r, ai)
                elif a[0] in ('p', 'fld', 'g', '[]', 'call', '+'):
                    for l in [l for l in s.mem if l[0] == '[]' and l[1] == a]:
                        del s.mem[l]
                    s.mem[('[]', a, ('c', 0))] = ('out', r, ai)
                elif a[0] == 'new':
                    for l in [l for l in s.mem if l[0] == '[]' and l[1] == a]:
                        del s.mem[l]
        return [s]

    def paths(self, f, fr, st, depth=0):
        out = []
        work = [(f.entry, st, {})]
        n = 0
        while work:
            b, s, seen = work.pop()
            if seen.get(b, 0) >= self.unroll:
                continue
            n += 1
            if n > self.maxpaths * 8 or len(out) > self.maxpaths:
                self.cut += 1
                break
            if b == f.exit:
                out.append(s)
                continue
            seen = dict(seen)
            seen[b] = seen.get(b, 0) + 1
            blk = f.blocks[b]
            # expression values are per visit
            if seen[b] > 1:
                s = s.copy()
                for e in blk['e']:
                    if not isinstance(e, dict):
                        s.tmp.pop((fr, e), None)
            sts = [s]
            dead = False
            for e in blk['e']:
                nx = []
                for x in sts:
                    nx += self.step(f, fr, e, x, depth)
                sts = nx
                if isinstance(e, int):
                    nd = f.nodes[e]
                    if nd['k'] == 'ReturnStmt':
                        for x in sts:
                            if 'val' in nd:
                                v = self.ev(f, fr, nd['val'], x)
                                t = self.truth(v, x) if v[0] in ('cmp', 'not') else None
                                x.ret = ('c', int(t)) if t is not None else v
                            else:
                                x.ret = None
                    elif nd['k'] == 'CXXThrowExpr':
                        dead = True
            if dead:
                continue
            for x in sts:
                for idx, b2 in enumerate(blk['s']):
                    if b2 is None:
                        continue
                    y = self.edge(f, fr, blk, idx, x)
                    if y is not None:
                        work.append((b2, y, seen))
        return out

    def edge(self, f, fr, blk, idx, st):
        if 'term' not in blk or 'cond' not in blk:
            return st
        t = f.nodes[blk['term']]
        if t['k'] == 'SwitchStmt':
            v = self.ev(f, fr, blk['cond'], st)
            from .cprop import CProp
            vals = [CProp.cases(f, b) for b in blk['s']]
            mine = vals[idx]
            if mine and v[0] == 'c':
                return st if v[1] in mine else None
            if mine is None or len(mine) != 1:
                if mine is None:
                    s = st
                    for c in {c for m in vals if m for c in m}:
                        s = self.assume(('cmp', '==', v, ('c', c)), False, s) if s is not None else None
                    return s
                return st
            return self.assume(('cmp', '==', v, ('c', next(iter(mine)))), True, st)
        if t['k'] in ('CXXTryStmt', 'CXXForRangeStmt') or len(blk['s']) != 2:
            return st
        c = blk['cond']
        nd = f.nodes[f.strip(c)]
        v = self.ev(f, fr, c, st)
        return self.assume(v, idx == 0, st)

    def run(self, f):
        st = St()
        for k, v in enumerate(f.params):
            if f.vars[v]['t'].rstrip().endswith('&'):
                st.env[(), v, '&'] = ('[]', ('p', k), ('c', 0))
            else:
                st.env[(), v] = ('p', k)
        return self.paths(f, (), st)


def show(t):
    """short text of a term"""
    k = t[0]
    if k == 'c':
        return str(t[1])
    if k == 'p':
        return 'arg%d' % t[1]
    if k == 'call':
        return '%s(%s)' % (t[1], ', '.join(show(x) for x in t[2]))
    if k == '[]':
        return '%s[%s]' % (show(t[1]), show(t[2]))
    if k == 'fld':
        return '%s.%s' % (show(t[1]), t[2].split('::')[-1])
    if k in ('+', '*'):
        return (' %s ' % k).join(show(x) for x in t[1])
    if k == 'cmp':
        return '%s %s %s' % (show(t[2]), t[1], show(t[3]))
    if k == 'out':
        return 'what %s stored' % t[1][1]
    if k == 's':
        return '"%s"' % t[1]
    return k
