"""Positions and lengths: how many times the position of the paragraph an integer expression contains.

weight 1: a position in the paragraph; weight 0: a length, count or difference of positions; 'k': a constant expression; None: not known.
Seeds are fields whose meaning is fixed (Token::pos ...); local variables get the common weight of everything assigned to them.
"""
from .effects import is_write_op, write_target

POINTS = ('Token::pos', 'Sentence::pos')
LENGTHS = ('Token::tokenlen', 'Sentence::tokenCount', 'Paragraph::sentenceCount')


class Affine:
    def __init__(self, m, callers, seeds=None):
        self.m, self.callers = m, callers
        self.seeds = seeds or {}          # (fn key, var) -> weight

    def field(self, q):
        for s in POINTS:
            if q.endswith('::' + s):
                return 1
        for s in LENGTHS:
            if q.endswith('::' + s):
                return 0
        return None

    def add(self, a, b, sign):
        if a is None or b is None:
            return None
        if a == 'k':
            return b if sign > 0 or b == 'k' else -b
        if b == 'k':
            return a
        return a + sign * b

    @staticmethod
    def merge(ws):
        """common weight; constants give way"""
        if not ws or None in ws:
            return None
        x = {w for w in ws if w != 'k'}
        if not x:
            return 'k' if len(ws) == 1 else 0
        return x.pop() if len(x) == 1 else None

    def weight(self, f, i, ctx=(), seen=frozenset()):
        i = f.strip(i)
        nd = f.nodes[i]
        k = nd['k']
        if isinstance(nd.get('ev'), int):
            return 'k'
        if k == 'MemberExpr' and nd.get('mk') == 'field':
            return self.field(nd['m'])
        if k == 'ConditionalOperator':
            return self.merge([self.weight(f, nd['then'], ctx, seen), self.weight(f, nd['else'], ctx, seen)])
        if k == 'BinaryOperator':
            if nd['op'] == '-' and '*' in f.nodes[f.strip(nd['lhs'])].get('t', '') and '*' in f.nodes[f.strip(nd['rhs'])].get('t', ''):
                return 0
            if nd['op'] in ('+', '-'):
                return self.add(self.weight(f, nd['lhs'], ctx, seen), self.weight(f, nd['rhs'], ctx, seen), 1 if nd['op'] == '+' else -1)
            if nd['op'] in ('*', '/', '%'):
                a, b = self.weight(f, nd['lhs'], ctx, seen), self.weight(f, nd['rhs'], ctx, seen)
                return 0 if a in (0, 'k') and b in (0, 'k') else None
            return None
        if k == 'UnaryOperator' and nd['op'] in ('++', '--', '+'):
            return self.weight(f, nd['sub'], ctx, seen)
        if k == 'DeclRefExpr' and nd.get('dk') == 'var':
            return self.var(f, nd['v'], ctx, seen)
        if nd.get('callee'):
            cn = nd.get('cn')
            if cn in ('wcslen', 'strlen', 'size', 'length'):
                return 0
            if cn in ('min', 'max') and len(nd.get('args', ())) == 2:
                return self.merge([self.weight(f, a, ctx, seen) for a in nd['args']])
            if cn in ('operator*', 'operator[]', 'at', 'front', 'back') and 'obj' in nd:
                return self.elements(f, nd['obj'], ctx, seen)
            ts = self.m.targets(nd)
            if ts and len(ctx) < 5:
                ws = []
                for g in ts:
                    rs = [r['val'] for r in g.nodes if r['k'] == 'ReturnStmt' and 'val' in r]
                    if not rs or (g.key, 'ret') in seen:
                        return None
                    ws += [self.weight(g, r, ((f, nd),) + ctx, seen | {(g.key, 'ret')}) for r in rs]
                return self.merge(ws)
            return None
        if 'sub' in nd and k != 'UnaryOperator':
            return self.weight(f, nd['sub'], ctx, seen)
        return None

    def var(self, f, v, ctx, seen):
        if (f.key, v) in self.seeds:
            return self.seeds[f.key, v]
        if (f.key, v) in seen:
            return 'k'          # own previous value
        s2 = seen | {(f.key, v)}
        ws = []
        if v in f.params:
            k = f.params.index(v)
            t = f.vars[v]['t'].rstrip()
            if t.endswith('*') or t.endswith('&') and not t.startswith('const'):
                return None
            if ctx:
                g, call = ctx[0]
                if k >= len(call.get('args', ())):
                    return None
                ws.append(self.weight(g, call['args'][k], ctx[1:], seen))
            else:
                cs = self.callers.get(f.key, [])
                if not cs:
                    return None
                for g, call in cs:
                    if k >= len(call.get('args', ())):
                        return None
                    ws.append(self.weight(g, call['args'][k], (), s2))
        for nd in f.nodes:
            if nd['k'] == 'DeclStmt':
                for d in nd['decls']:
                    if d.get('v') == v and 'init' in d:
                        ws.append(self.weight(f, d['init'], ctx, s2))
            elif nd['k'] == 'CXXForRangeStmt' and nd.get('loopvar') == v and 'range' in nd:
                ws.append(self.elements(f, nd['range'], ctx, s2))
            elif is_write_op(nd):
                t = f.nodes[f.strip(write_target(nd))]
                if t['k'] == 'DeclRefExpr' and t.get('v') == v:
                    if nd['k'] == 'UnaryOperator':
                        ws.append('k')
                        ws.append('k')
                    elif nd.get('op') == '=':
                        ws.append(self.weight(f, nd['rhs'], ctx, s2))
                    else:
                        w = self.weight(f, nd['rhs'], ctx, s2) if nd.get('op') in ('+=', '-=') else None
                        if w not in (0, 'k'):
                            return None
                        ws += ['k', 'k']
            elif nd['k'] == 'UnaryOperator' and nd['op'] == '&':
                t = f.nodes[f.strip(nd['sub'])]
                if t['k'] == 'DeclRefExpr' and t.get('v') == v:
                    return None
            elif nd.get('callee') and nd['k'] != 'CXXConstructExpr':
                for a, pt in zip(nd.get('args', ()), nd.get('pt', ())):
                    if pt.rstrip().endswith('&') and not pt.startswith('const'):
                        t = f.nodes[f.strip(a)]
                        if t['k'] == 'DeclRefExpr' and t.get('v') == v:
                            return None
        if seen and any(w == 'k' for w in ws) and len(ws) > 1 and all(w == 'k' for w in ws):
            return 0
        return self.merge(ws)

    def elements(self, f, i, ctx, seen):
        """weight of the elements of a local container (or of what an iterator runs over)"""
        i = f.strip(i)
        nd = f.nodes[i]
        if nd.get('cn') in ('operator++', 'operator--', 'begin', 'rbegin', 'cbegin') and 'obj' in nd:
            return self.elements(f, nd['obj'], ctx, seen)
        if nd['k'] in ('CXXConstructExpr',) and len(nd.get('args', ())) == 1:
            return self.elements(f, nd['args'][0], ctx, seen)
        if nd['k'] != 'DeclRefExpr' or nd.get('dk') != 'var' or nd['v'] in f.params or (f.key, nd['v'], 'el') in seen:
            return None
        v = nd['v']
        s2 = seen | {(f.key, v, 'el')}
        if 'iterator' in f.vars[v]['t']:
            ws = []
            for x in f.nodes:
                if x['k'] == 'DeclStmt':
                    for d in x['decls']:
                        if d.get('v') == v and 'init' in d:
                            ws.append(self.elements(f, d['init'], ctx, s2))
            return self.merge(ws)
        ws = []
        for x in f.calls():
            if 'obj' in x and f.nodes[f.strip(x['obj'])].get('v') == v and x.get('cn') in ('push_back', 'push_front', 'emplace_back', 'push', 'insert'):
                ws.append(self.weight(f, x['args'][-1], ctx, s2))
        return self.merge(ws)
