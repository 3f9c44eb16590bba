"""Where a pointer or container value can come from: flow-insensitive origins, with the arguments of the actual callers for parameters.

origins(f, node, ctx) -> set of
  ('lit', text)  string literal        ('new', fn, line)  fresh array      ('null',)
  ('elem', container)  a value stored in a container; container = ('field', q) | ('global', key) | ('local', fn key, var)
  ('attr', key)  value of an attribute of an analysis
  ('in', fn key, k)  parameter of a function without known callers          ('?', what)  not resolved
A context is a tuple of (caller, call node) pairs, innermost first; an empty context means "any caller".
"""
from .effects import is_write_op, write_target


def text(nd):
    if nd['k'] != 'StringLiteral':
        return None
    if 'w' in nd:
        return ''.join(chr(c & 0x10ffff) for c in nd['w'])
    return nd.get('s', '')


class Origins:
    def __init__(self, m):
        self.m = m
        self.callers = {}
        for f in m.fns.values():
            for nd in f.calls():
                for g in m.targets(nd):
                    self.callers.setdefault(g.key, []).append((f, nd))
        self.memo = {}
        self.cmemo = {}
        self._ins = None

    def defs(self, f, v):
        """expressions assigned to a local variable"""
        out = []
        for nd in f.nodes:
            if nd['k'] == 'DeclStmt':
                for d in nd['decls']:
                    if d.get('v') == v and 'init' in d:
                        out.append(d['init'])
            elif is_write_op(nd) and nd['k'] == 'BinaryOperator':
                t = f.nodes[f.strip(write_target(nd))]
                if t['k'] == 'DeclRefExpr' and t.get('v') == v:
                    out.append(nd['rhs'])
        return out

    def range_var(self, f, v):
        """container expression when v is the variable of a range-for loop"""
        for nd in f.nodes:
            if nd['k'] == 'CXXForRangeStmt' and nd.get('loopvar') == v:
                return nd.get('range')
        return None

    def origins(self, f, i, ctx=(), seen=None):
        if seen is not None:
            return self._origins(f, i, ctx, seen)
        key = (f.key, i, tuple((g.key, c['i']) for g, c in ctx))
        if key not in self.memo:
            self.memo[key] = self._origins(f, i, ctx, set())
        return self.memo[key]

    def _origins(self, f, i, ctx, seen):
        i = f.strip(i)
        nd = f.nodes[i]
        k = nd['k']
        key = (f.key, i, tuple((g.key, c['i']) for g, c in ctx))
        if key in seen:
            return set()        # already accounted for by this query
        if len(seen) > 3000:
            return {('?', 'limit')}
        seen.add(key)
        t = text(nd)
        if t is not None:
            return {('lit', t)}
        if nd.get('nul') or k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return {('null',)}
        if isinstance(nd.get('ev'), int) and nd['ev'] == 0 and k in ('IntegerLiteral',):
            return {('null',)}
        if k == 'ConditionalOperator':
            return self.origins(f, nd['then'], ctx, seen) | self.origins(f, nd['else'], ctx, seen)
        if k == 'CXXNewExpr':
            return {('new', f.q, nd.get('l'))}
        if k == 'DeclRefExpr':
            if nd.get('dk') == 'var':
                v = nd['v']
                if v in f.params:
                    out = self.param(f, f.params.index(v), ctx, seen)
                    for d in self.defs(f, v):
                        out |= self.origins(f, d, ctx, seen)
                    return out
                ds = self.defs(f, v)
                if ds:
                    out = set()
                    for d in ds:
                        out |= self.origins(f, d, ctx, seen)
                    return out
                return {('local', f.key, v)}
            if nd.get('dk') == 'global':
                g = self.m.globals.get(nd['g']) if isinstance(self.m.globals, dict) else None
                it = (g or {}).get('init') or {}
                if 's' in it:
                    return {('lit', it['s'])}
                if 'w' in it:
                    return {('lit', ''.join(chr(c & 0x10ffff) for c in it['w']))}
                return {('global', nd['g'])}
            return {('?', nd.get('n'))}
        if k == 'MemberExpr' and nd.get('mk') == 'field':
            if nd.get('mn') == 'second' and 'std::pair' in nd['m']:
                return self.elements(f, nd['base'], ctx, seen)
            return {('field', nd['m'])}
        if k == 'UnaryOperator' and nd['op'] in ('*', '&'):
            o = self.origins(f, nd['sub'], ctx, seen)
            return o
        if k == 'ArraySubscriptExpr':
            o = self.origins(f, nd['base'], ctx, seen)
            return {('elem', x) for x in o}
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and len(nd.get('args', ())) >= 1:
            return self.origins(f, nd['args'][0], ctx, seen)
        if nd.get('callee'):
            cn = nd.get('cn')
            if 'obj' in nd and cn in ('find', 'begin', 'cbegin', 'rbegin', 'at', 'operator[]', 'operator->', 'operator*', 'front', 'back', 'c_str', 'get', 'data', 'find_if', 'lower_bound'):
                o = self.origins(f, nd['obj'], ctx, seen)
                if cn in ('at', 'operator[]', 'front', 'back'):
                    return {('elem', x) for x in o}
                return o
            if cn == 'getValue' and len(nd.get('args', ())) == 1 and isinstance(f.nodes[f.strip(nd['args'][0])].get('ev'), int):
                return {('attr', f.nodes[f.strip(nd['args'][0])]['ev'])}
            ts = self.m.targets(nd)
            if ts and len(ctx) < 6:
                out = set()
                for g in ts:
                    rets = [r['val'] for r in g.nodes if r['k'] == 'ReturnStmt' and 'val' in r]
                    for r in rets:
                        out |= self.origins(g, r, ((f, nd),) + ctx, seen)
                    if not rets:
                        out.add(('?', cn))
                return out
            return {('call', cn)}
        if 'sub' in nd:
            return self.origins(f, nd['sub'], ctx, seen)
        return {('?', k)}

    def elements(self, f, i, ctx, seen):
        nd = f.nodes[f.strip(i)]
        if nd['k'] == 'DeclRefExpr' and nd.get('dk') == 'var':
            r = self.range_var(f, nd['v'])
            if r is not None:
                return {('elem', x) for x in self.origins(f, r, ctx, seen)}
        return {('elem', x) if x[0] in ('field', 'global', 'local', 'in') else x for x in self.origins(f, i, ctx, seen)}

    def param(self, f, k, ctx, seen):
        if ctx:
            g, call = ctx[0]
            args = call.get('args', ())
            if k < len(args):
                return self.origins(g, args[k], ctx[1:], seen)
            return {('?', 'default argument')}
        cs = self.callers.get(f.key, [])
        if not cs:
            return {('in', f.key, k)}
        out = set()
        for g, call in cs:
            args = call.get('args', ())
            if k < len(args):
                out |= self.origins(g, args[k], (), seen)
        return out

    def inserts(self):
        if self._ins is None:
            self._ins = []
            for f in self.m.fns.values():
                for nd in f.calls():
                    if 'obj' in nd and nd.get('cn') in ('insert', 'emplace', 'push_back', 'push_front', 'emplace_back', 'insert_or_assign', 'try_emplace') and nd.get('args'):
                        self._ins.append((f, nd, self.origins(f, nd['obj'])))
                for nd in f.nodes:
                    if is_write_op(nd) and nd['k'] == 'BinaryOperator':
                        t = f.nodes[f.strip(write_target(nd))]
                        if t.get('cn') == 'operator[]' and 'obj' in t:
                            self._ins.append((f, nd, self.origins(f, t['obj'])))
        return self._ins

    def contents(self, container):
        if container not in self.cmemo:
            self.cmemo[container] = None
            self.cmemo[container] = self._contents(container)
        return self.cmemo[container]

    def _contents(self, container):
        """origins of the values that are put into a container (fields and globals)"""
        out = set()
        found = False
        if container[0] == 'global':
            g = self.m.globals.get(container[1]) if isinstance(self.m.globals, dict) else None
            for o in init_values((g or {}).get('init')):
                out.add(o)
                found = True
        for f, nd, objs in self.inserts():
            if container not in objs:
                continue
            found = True
            if nd['k'] == 'BinaryOperator':
                out |= self.origins(f, nd['rhs'])
                continue
            a = nd['args'][-1]
            an = f.nodes[f.strip(a)]
            while an['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr') and len(an.get('args', an.get('c', ()))) == 1:
                an = f.nodes[f.strip((an.get('args') or an['c'])[0])]
            if an.get('cn') in ('make_pair', 'pair') or an['k'] == 'InitListExpr':
                xs = an.get('args') or an.get('c')
                out |= self.origins(f, xs[-1])
            else:
                out |= self.origins(f, a)
        for f in self.m.fns.values():
            for ini in f.d.get('inits', ()):
                if container == ('field', ini.get('m')) and ini.get('e', -1) >= 0:
                    ls = list_pairs(f, ini['e'])
                    if ls:
                        found = True
                        for x in ls:
                            out |= self.origins(f, x)
        return out if found else None


def list_pairs(f, i):
    """second components of the pairs of a braced initialiser"""
    out = []
    for nd in f.walk(i):
        if nd['k'] in ('CXXConstructExpr', 'InitListExpr') and len(nd.get('args', nd.get('c', ()))) == 2 and ('pair' in (nd.get('cn') or '') or nd['k'] == 'InitListExpr'):
            out.append((nd.get('args') or nd['c'])[1])
    return out


def init_values(it):
    if not isinstance(it, dict):
        return []
    out = []
    for x in it.get('list', []):
        if isinstance(x, dict):
            if len(x.get('args', ())) == 2:
                y = x['args'][1]
            elif len(x.get('list', ())) == 2:
                y = x['list'][1]
            else:
                y = x
            if 's' in y:
                out.append(('lit', y['s']))
            elif 'w' in y:
                out.append(('lit', ''.join(chr(c & 0x10ffff) for c in y['w'])))
    for x in it.get('args', []):
        out += init_values(x)
    return out
