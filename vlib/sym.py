"""Symbolic normal form of integer/pointer expressions: single-definition locals are substituted, one-return helpers inlined."""
from .effects import is_write_op, write_target


class Sym:
    def __init__(self, m):
        self.m = m
        self._single = {}

    def single_defs(self, f):
        """{var: init node} for locals defined exactly once and never re-assigned / address-taken for writing"""
        if f.key in self._single:
            return self._single[f.key]
        cnt, ini = {}, {}
        for nd in f.nodes:
            if nd['k'] == 'DeclStmt':
                for d in nd['decls']:
                    if 'v' in d:
                        if 'init' in d:
                            cnt[d['v']] = cnt.get(d['v'], 0) + (1 if ini.get(d['v']) != d['init'] else 0)
                            ini[d['v']] = d['init']
            elif is_write_op(nd):
                v = f.var(write_target(nd))
                if v is not None:
                    if nd['k'] == 'BinaryOperator' and nd['op'] == '=':
                        cnt[v] = cnt.get(v, 0) + 1
                        ini[v] = nd['rhs']
                    else:
                        cnt[v] = cnt.get(v, 0) + 2
            elif nd['k'] == 'UnaryOperator' and nd['op'] == '&':
                v = f.var(nd['sub'])
                if v is not None:
                    cnt[v] = cnt.get(v, 0) + 2
        r = {v: ini[v] for v, c in cnt.items() if c == 1 and v not in f.params}
        self._single[f.key] = r
        return r

    def assigned_params(self, f):
        s = set()
        for nd in f.nodes:
            if is_write_op(nd):
                v = f.var(write_target(nd))
                if v in f.params:
                    s.add(v)
        return s

    def __call__(self, f, i, env=None, depth=0):
        env = env or {}
        i = f.strip(i)
        nd = f.nodes[i]
        k = nd['k']
        if 'ev' in nd and k != 'DeclRefExpr':
            return ('c', nd['ev'])
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return ('c', 0)
        if k == 'DeclRefExpr':
            if nd.get('dk') == 'var':
                v = nd['v']
                if v in env:
                    return env[v]
                if v in f.params:
                    if v in self.assigned_params(f):
                        return ('var', f.key, v)
                    return ('p', f.params.index(v))
                sd = self.single_defs(f)
                if v in sd and depth < 40:
                    return self(f, sd[v], env, depth + 1)
                return ('var', f.key, v)
            if 'ev' in nd:
                return ('c', nd['ev'])
            if nd.get('dk') == 'global':
                return ('g', nd['g'])
            return ('x', nd.get('n'))
        if k == 'CXXThisExpr':
            return env.get('this', ('this',))
        if k == 'MemberExpr' and nd.get('mk') == 'field':
            return ('fld', self(f, nd['base'], env, depth + 1), nd['m'])
        if k in ('BinaryOperator',):
            op = nd['op']
            a, b = self(f, nd['lhs'], env, depth + 1), self(f, nd['rhs'], env, depth + 1)
            return norm(op, a, b)
        if k == 'UnaryOperator':
            op = nd['op']
            a = self(f, nd['sub'], env, depth + 1)
            if op == '*':
                return ('[]', a, ('c', 0))
            if op == '&':
                if a[0] == '[]':
                    return norm('+', a[1], a[2])
                return ('&', a)
            if op == '-' and a[0] == 'c':
                return ('c', -a[1])
            return ('u' + op, a)
        if k == 'ArraySubscriptExpr':
            b = self(f, nd['base'], env, depth + 1)
            x = self(f, nd['idx'], env, depth + 1)
            if b[0] == '+':
                # pointer arithmetic: (p + off)[x] == p[off + x]
                ptr = [t for t in b[1] if t[0] in ('fld', 'var', 'p', 'g', 'call')]
                if len(ptr) >= 1:
                    rest = list(b[1])
                    base = ptr[0] if len(ptr) == 1 else None
                    if base:
                        rest.remove(base)
                        off = rest[0] if len(rest) == 1 else ('+', tuple(rest))
                        return ('[]', base, norm('+', off, x))
            return ('[]', b, x)
        if k == 'ConditionalOperator':
            return ('?', self(f, nd['cond'], env, depth + 1), self(f, nd['then'], env, depth + 1), self(f, nd['else'], env, depth + 1))
        if 'callee' in nd and k not in ('CXXConstructExpr',):
            args = [self(f, a, env, depth + 1) for a in nd.get('args', ())]
            ts = self.m.targets(nd)
            if len(ts) == 1 and depth < 20 and not nd.get('virt'):
                t = ts[0]
                rets = [x for x in t.nodes if x['k'] == 'ReturnStmt' and 'val' in x]
                loops = [x for x in t.nodes if x['k'] in ('ForStmt', 'WhileStmt', 'DoStmt', 'IfStmt', 'SwitchStmt', 'CXXForRangeStmt')]
                if len(rets) == 1 and not loops:
                    e2 = dict(zip(t.params, args))
                    if 'obj' in nd:
                        e2['this'] = self(f, nd['obj'], env, depth + 1)
                    return self(t, rets[0]['val'], e2, depth + 1)
            obj = (self(f, nd['obj'], env, depth + 1),) if 'obj' in nd else ()
            return ('call', nd['callee']) + obj + tuple(args)
        return ('x', f.key, i)


def norm(op, a, b):
    if op in ('+', '*'):
        ts = []
        for t in (a, b):
            if t[0] == op:
                ts.extend(t[1])
            else:
                ts.append(t)
        c = None
        rest = []
        for t in ts:
            if t[0] == 'c':
                c = t[1] if c is None else (c + t[1] if op == '+' else c * t[1])
            else:
                rest.append(t)
        if c is not None and not rest:
            return ('c', c)
        if c is not None and not (c == (0 if op == '+' else 1)):
            rest.append(('c', c))
        if len(rest) == 1:
            return rest[0]
        return (op, tuple(sorted(rest, key=repr)))
    if a[0] == 'c' and b[0] == 'c':
        try:
            if op == '-':
                return ('c', a[1] - b[1])
            if op == '<<':
                return ('c', a[1] << b[1])
        except Exception:
            pass
    if op == '-' and b[0] == 'c':
        return norm('+', a, ('c', -b[1]))
    return ('b' + op, a, b)


def subterms(t):
    yield t
    for x in t[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield from subterms(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple):
                    yield from subterms(y)
