"""Field effects: which record fields a function reads and writes, directly and through its callees."""
from collections import defaultdict

ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '&=', '|=', '^='}


def is_write_op(nd):
    return (nd['k'] in ('BinaryOperator', 'CompoundAssignOperator') and nd.get('op') in ASSIGN) or \
           (nd['k'] == 'UnaryOperator' and nd.get('op') in ('++', '--'))


def write_target(nd):
    return nd['lhs'] if 'lhs' in nd else nd['sub']


class Effects:
    def __init__(self, m):
        self.m = m
        self._ev = {}
        self._deref = {}
        self._tr = {}
        self._compute_param_writes()

    # -- parameters through which a function writes memory (may)
    def _compute_param_writes(self):
        m = self.m
        pw = {k: set() for k in m.fns}
        changed = True
        while changed:
            changed = False
            for f in m.fns.values():
                cur = pw[f.key]
                n0 = len(cur)
                pidx = {v: i for i, v in enumerate(f.params)}
                # locals that alias a parameter value (p = param)
                alias = {v: {i} for v, i in pidx.items()}
                for _ in range(3):
                    for nd in f.nodes:
                        if nd['k'] == 'DeclStmt':
                            for d in nd['decls']:
                                if 'init' in d and 'v' in d:
                                    r = f.root(f.path(d['init']))
                                    if r[0] == 'v' and r[1] in alias and ('*' in d['t'] or '&' in d['t']):
                                        alias.setdefault(d['v'], set()).update(alias[r[1]])
                        elif nd['k'] == 'BinaryOperator' and nd['op'] == '=':
                            v = f.var(nd['lhs'])
                            if v is not None and '*' in f.vars[v]['t']:
                                r = f.root(f.path(nd['rhs']))
                                if r[0] == 'v' and r[1] in alias:
                                    alias.setdefault(v, set()).update(alias[r[1]])
                for nd in f.nodes:
                    if is_write_op(nd):
                        p = f.path(write_target(nd))
                        if p[0] == 'v':
                            v = p[1]
                            if f.vars[v]['t'].endswith('&') and v in alias:
                                cur |= alias[v]
                            continue
                        # writes through a field chain are field writes, not parameter writes
                        if p[0] in ('d', 'e'):
                            r = p[1]
                            while r[0] in ('d', 'e'):
                                r = r[1]
                            if r[0] == 'v' and r[1] in alias:
                                cur |= alias[r[1]]
                    if nd.get('callee') and 'args' in nd:
                        for ai, a in enumerate(nd['args']):
                            if not self.arg_written(f, nd, ai, pw):
                                continue
                            p = f.path(a)
                            if p[0] == 'a':
                                p = p[1]
                                if p[0] == 'v':
                                    continue
                                while p[0] in ('d', 'e'):
                                    p = p[1]
                            if p[0] == 'v' and p[1] in alias:
                                cur |= alias[p[1]]
                if len(cur) != n0:
                    changed = True
        self.param_writes = pw

    def arg_written(self, f, call, ai, pw=None):
        """may the callee write the memory its ai-th argument points to (or refers to)?"""
        pw = pw if pw is not None else self.param_writes
        pts = call.get('pt', [])
        t = pts[ai] if ai < len(pts) else ''
        if not ('*' in t or t.endswith('&')):
            return False
        ts = self.m.targets(call)
        if ts:
            return any(ai in pw[t2.key] for t2 in ts)
        if t.startswith('const ') and t.count('*') + t.count('&') == 1:
            return False
        return True

    # -- direct events
    def events(self, f):
        """{node id: [(kind, field, base path)]} kind in r,w,m(ay write through address)"""
        if f.key in self._ev:
            return self._ev[f.key]
        ev = defaultdict(list)
        wtargets = {}
        for nd in f.nodes:
            if is_write_op(nd):
                wtargets[f.strip(write_target(nd))] = nd
        addr_args = {}
        for nd in f.nodes:
            if nd.get('callee') and 'args' in nd:
                for ai, a in enumerate(nd['args']):
                    x = f.nodes[f.strip(a)]
                    if x['k'] == 'UnaryOperator' and x['op'] == '&':
                        addr_args[f.strip(x['sub'])] = (nd, ai)
                    elif x['k'] == 'MemberExpr' and ai < len(nd.get('pt', [])) and nd['pt'][ai].endswith('&'):
                        addr_args[x['i']] = (nd, ai)
                    elif x['k'] == 'MemberExpr' and x.get('decay'):
                        addr_args[x['i']] = (nd, ai)
        for nd in f.nodes:
            if nd['k'] != 'MemberExpr' or nd.get('mk') != 'field':
                continue
            i = nd['i']
            base = f.path(nd['base'])
            if i in wtargets:
                w = wtargets[i]
                if w['k'] == 'CompoundAssignOperator' or w['k'] == 'UnaryOperator':
                    ev[w['i']].append(('r', nd['m'], base))
                ev[w['i']].append(('w', nd['m'], base))
            elif i in addr_args:
                call, ai = addr_args[i]
                ev[call['i']].append(('r', nd['m'], base))
                if self.arg_written(f, call, ai):
                    ev[call['i']].append(('w', nd['m'], base))
            else:
                ev[i].append(('r', nd['m'], base))
                # element stores: base->f[i] = x
                par = f.parent.get(i)
                j = i
                deep = False
                while par is not None and f.nodes[par]['k'] in ('ArraySubscriptExpr', 'UnaryOperator', 'MemberExpr') and f.nodes[par].get('op') in (None, '*'):
                    if f.nodes[par]['k'] == 'MemberExpr':
                        break
                    deep = True
                    j = par
                    par = f.parent.get(par)
                if deep and j in wtargets:
                    ev[wtargets[j]['i']].append(('we', nd['m'], base))
        for ini in f.d.get('inits', []):
            if 'm' in ini:
                ev[ini['e']].append(('w', ini['m'], ('this',)))
        self._ev[f.key] = ev
        return ev

    def direct(self, f):
        r, w = set(), set()
        for l in self.events(f).values():
            for kind, fld, base in l:
                (r if kind == 'r' else w).add(fld)
        return r, w

    def transitive(self, roots, stop=()):
        """(reads, writes) as {field: (function key, node)} over everything reachable from roots"""
        par = self.m.reach(roots, stop)
        R, W = {}, {}
        for k in par:
            f = self.m.fns[k]
            for i, l in self.events(f).items():
                for kind, fld, base in l:
                    (R if kind == 'r' else W).setdefault(fld, (k, f.nodes[i]))
        return R, W, par
