"""Nullness of single call results: where may the result of a lookup-or-null call be accessed while it is null?"""
from collections import deque
from .effects import is_write_op, write_target
from .flow import positions
from .own import STRFN, is_c, isptr

SKIP = ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr', 'ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups', 'CXXReinterpretCastExpr', 'CXXFunctionalCastExpr')


class NullFlow:
    def __init__(self, m, needs):
        self.m = m
        self.needs = needs       # fn -> {k: why}

    def accesses(self, f, nd):
        """(expression, how) that evaluating nd accesses through a pointer"""
        k = nd['k']
        if k == 'UnaryOperator' and nd['op'] == '*':
            yield nd['sub'], 'dereferenced'
        elif k == 'ArraySubscriptExpr':
            yield nd['base'], 'dereferenced'
        elif k == 'MemberExpr' and nd.get('arrow'):
            yield nd['base'], 'dereferenced'
        elif nd.get('callee'):
            if 'obj' in nd and nd['k'] == 'CXXMemberCallExpr':
                o = f.nodes[f.strip(nd['obj'])]
                if isptr(o.get('t', '')):
                    yield nd['obj'], 'dereferenced'
            ts = self.m.targets(nd)
            pts = nd.get('pt', [])
            for ai, a in enumerate(nd.get('args', ())):
                if ts:
                    for t in ts:
                        w = self.needs(t).get(ai)
                        if w:
                            yield a, 'passed to %s, which accesses it (%s)' % (nd.get('cn'), w)
                            break
                else:
                    key = str(nd['callee'])
                    if nd.get('cn') in STRFN and is_c(key.replace('std::', '')) and isptr(pts[ai] if ai < len(pts) else ''):
                        yield a, 'passed to ' + nd['cn']
                    elif ai == 0 and nd.get('cn') == 'basic_string' and isptr((pts or [''])[0]):
                        yield a, 'made into a string'

    def value(self, f, i, src, env):
        """'N', 'V' or None for an expression"""
        i = f.strip(i)
        nd = f.nodes[i]
        if i == src:
            return env.get('src')
        if nd['k'] == 'DeclRefExpr' and nd.get('dk') == 'var':
            return env.get(nd['v'])
        if nd['k'] == 'MemberExpr' and f.path(i)[0] == 'f':
            return env.get(f.path(i))
        if nd['k'] == 'BinaryOperator' and nd['op'] == '=':
            return self.value(f, nd['lhs'], src, env)
        if nd['k'] == 'BinaryOperator' and nd['op'] in ('+', '-') and isptr(nd.get('t', '')):
            return self.value(f, nd['lhs'], src, env)
        if nd['k'] == 'UnaryOperator' and nd['op'] in ('++', '--'):
            return self.value(f, nd['sub'], src, env)
        if nd['k'] in SKIP and nd.get('c'):
            return self.value(f, nd['c'][0], src, env)
        return None

    def target(self, f, i):
        p = f.path(i)
        if p[0] == 'v':
            return p[1]
        if p[0] == 'f':
            return p
        return None

    def refine(self, f, i, truth, src, env, depth=0):
        i = f.strip(i)
        nd = f.nodes[i]
        k = nd['k']
        if k in SKIP and nd.get('c'):
            return self.refine(f, nd['c'][0], truth, src, env, depth)
        if k == 'UnaryOperator' and nd['op'] == '!':
            return self.refine(f, nd['sub'], not truth, src, env, depth)
        if k == 'BinaryOperator' and nd['op'] in ('&&', '||'):
            if (nd['op'] == '&&') == truth:
                return self.refine(f, nd['lhs'], truth, src, env, depth) and self.refine(f, nd['rhs'], truth, src, env, depth)
            return self.refine(f, nd['lhs'], truth, src, env, depth) or self.refine(f, nd['rhs'], truth, src, env, depth)
        if k == 'BinaryOperator' and nd['op'] in ('==', '!='):
            for a, b in ((nd['lhs'], nd['rhs']), (nd['rhs'], nd['lhs'])):
                if f.isnull(b):
                    v = self.value(f, a, src, env)
                    if v:
                        return ((v == 'V') == ((nd['op'] == '!=') == truth))
        v = self.value(f, i, src, env)
        if v:
            return (v == 'V') == truth
        if k == 'DeclRefExpr' and nd.get('dk') == 'var' and depth < 4:
            d = env.get(('flag', nd['v']))
            if d is not None:
                return d == truth
            ini = self.flag_defs(f).get(nd['v'])
            if ini is not None:
                return self.refine(f, ini, truth, src, env, depth + 1)
        return True

    def flag_defs(self, f):
        """bool locals with a single definition"""
        if '_flagdefs' not in f.__dict__:
            ds = {}
            for nd in f.nodes:
                if nd['k'] == 'DeclStmt':
                    for d in nd['decls']:
                        if 'v' in d and 'init' in d and d['t'] in ('bool', 'const bool'):
                            ds.setdefault(d['v'], []).append(d['init'])
                elif is_write_op(nd):
                    v = f.var(write_target(nd))
                    if v is not None:
                        ds.setdefault(v, []).append(None)
            f.__dict__['_flagdefs'] = {v: l[0] for v, l in ds.items() if len(l) == 1 and l[0] is not None}
        return f.__dict__['_flagdefs']

    def run(self, f, src):
        """accesses of the result of call node src while it may be null: list of (node, how)"""
        pos = positions(f)
        if src not in pos:
            return []
        found = {}
        start = pos[src][0]
        ins = {}
        wl = deque()

        def put(b, env):
            k = frozenset(env.items())
            d = ins.setdefault(b, {})
            if k not in d:
                d[k] = env
                wl.append((b, k))

        def elements(b, frm, env):
            blk = f.blocks[b]
            for k2, e in enumerate(blk['e']):
                if k2 < frm or isinstance(e, dict):
                    continue
                nd = f.nodes[e]
                if e == src:
                    if frm == 0:
                        return None, True      # next round: analysed from the start
                    continue
                if 'N' in env.values():
                    for x, how in self.accesses(f, nd):
                        if self.value(f, x, src, env) == 'N':
                            found.setdefault(nd['i'], (nd, how))
                            return None, True
                if nd['k'] == 'DeclStmt':
                    for d in nd['decls']:
                        if 'v' in d:
                            v = self.value(f, d['init'], src, env) if 'init' in d else None
                            env = dict(env)
                            env.pop(d['v'], None)
                            if v and isptr(d['t']):
                                env[d['v']] = v
                elif is_write_op(nd) and nd['k'] == 'BinaryOperator' and nd['op'] == '=':
                    t = self.target(f, nd['lhs'])
                    v = self.value(f, nd['rhs'], src, env)
                    if t is not None:
                        env = dict(env)
                        env.pop(t, None)
                        if v:
                            env[t] = v
                elif nd.get('callee') and any(isinstance(x, tuple) for x in env):
                    pass
                if nd['k'] in ('ReturnStmt', 'CXXThrowExpr'):
                    return None, True
            return env, False

        for val in ('N', 'V'):
            env, stop = elements(start, pos[src][1] + 1, {'src': val})
            if not stop:
                self.succ(f, start, src, env, put)
        n = 0
        while wl and n < 20000:
            b, k = wl.popleft()
            n += 1
            env, stop = elements(b, 0, ins[b][k])
            if not stop:
                self.succ(f, b, src, env, put)
        return list(found.values())

    def succ(self, f, b, src, env, put):
        blk = f.blocks[b]
        two = len(blk['s']) == 2 and 'cond' in blk
        for idx, nx in enumerate(blk['s']):
            if nx is None or nx == f.exit:
                continue
            e2 = env
            if two and not self.refine(f, blk['cond'], idx == 0, src, env):
                continue
            if [x for x in e2 if x != 'src'] or 'src' in e2:
                put(nx, e2)
