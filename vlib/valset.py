"""Value-set analysis: which integer/enum constants an expression may have (sets of at most LIM values, None = anything)."""
from collections import deque
from .effects import is_write_op, write_target

LIM = 64
TOP = None
BOOL = frozenset((0, 1))


def join(a, b):
    if a is TOP or b is TOP:
        return TOP
    r = a | b
    return r if len(r) <= LIM else TOP


def jstate(a, b):
    """join of variable environments; a variable missing from one is TOP there"""
    r = {}
    for k in a:
        if k in b:
            v = join(a[k], b[k])
            if v is not TOP:
                r[k] = v
    return r


CMP = {'==': lambda x, y: x == y, '!=': lambda x, y: x != y, '<': lambda x, y: x < y, '>': lambda x, y: x > y,
       '<=': lambda x, y: x <= y, '>=': lambda x, y: x >= y}
NEG = {'==': '!=', '!=': '==', '<': '>=', '>': '<=', '<=': '>', '>=': '<'}
SWAP = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}


def arith(op, x, y):
    try:
        if op == '+': return x + y
        if op == '-': return x - y
        if op == '*': return x * y
        if op == '<<': return x << y if 0 <= y < 64 else None
        if op == '>>': return x >> y if 0 <= y < 64 else None
        if op == '&': return x & y
        if op == '|': return x | y
        if op == '^': return x ^ y
        if op == '%': return x % y if y > 0 and x >= 0 else None
        if op == '/': return x // y if y > 0 and x >= 0 else None
    except Exception:
        return None
    return None


class ValSet:
    """hooks: load(fn, node, state) -> set/TOP or NotImplemented; call(fn, node, state) likewise; store(fn, node, path, val, state)"""

    def __init__(self, m, load=None, call=None, store=None, depth=6):
        self.m = m
        self.load, self.callhook, self.store = load, call, store
        self.depth = depth
        self.memo = {}
        self.stack = []

    # ---- expression evaluation in a state
    def ev(self, f, i, st):
        nd = f.nodes[i]
        k = nd['k']
        if 'ev' in nd and k not in ('DeclRefExpr',):
            return frozenset((nd['ev'],))
        if k in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr', 'CXXDynamicCastExpr') and 'sub' in nd:
            v = self.ev(f, nd['sub'], st)
            if nd.get('t') == 'bool' and v is not TOP:
                return frozenset(int(bool(x)) for x in v)
            return v
        if k == 'DeclRefExpr':
            if nd.get('dk') == 'var':
                if self.load:
                    r = self.load(f, nd, st)
                    if r is not NotImplemented:
                        return r
                return st.get(nd['v'], TOP)
            if 'ev' in nd:
                return frozenset((nd['ev'],))
        if k in ('MemberExpr', 'ArraySubscriptExpr', 'DeclRefExpr') or (k == 'UnaryOperator' and nd['op'] == '*'):
            if self.load:
                r = self.load(f, nd, st)
                if r is not NotImplemented:
                    return r
            return TOP
        if nd.get('nul') or k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return frozenset((0,))
        if k == 'ConditionalOperator':
            c = self.ev(f, nd['cond'], st)
            t = self.ev(f, nd['then'], st)
            e = self.ev(f, nd['else'], st)
            if c is not TOP:
                if c == frozenset((0,)):
                    return e
                if 0 not in c:
                    return t
            return join(t, e)
        if k == 'UnaryOperator':
            op = nd['op']
            v = self.ev(f, nd['sub'], st)
            if op == '!':
                return BOOL if v is TOP else frozenset(int(not x) for x in v)
            if v is TOP:
                return TOP
            if op == '-':
                return frozenset(-x for x in v)
            if op == '+':
                return v
            if op == '~':
                return frozenset(~x for x in v)
            if op in ('++', '--'):
                return v if nd.get('post') else TOP
            return TOP
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            op = nd['op']
            if op == '=':
                return self.ev(f, nd['rhs'], st)
            if op == ',':
                return self.ev(f, nd['rhs'], st)
            a, b = self.ev(f, nd['lhs'], st), self.ev(f, nd['rhs'], st)
            if op in CMP:
                if a is TOP or b is TOP:
                    return BOOL
                return frozenset(int(CMP[op](x, y)) for x in a for y in b)
            if op == '&&':
                if (a is not TOP and a == frozenset((0,))) or (b is not TOP and b == frozenset((0,))):
                    return frozenset((0,))
                if a is not TOP and 0 not in a and b is not TOP and 0 not in b:
                    return frozenset((1,))
                return BOOL
            if op == '||':
                if (a is not TOP and 0 not in a) or (b is not TOP and 0 not in b):
                    return frozenset((1,))
                if a == frozenset((0,)) and b == frozenset((0,)):
                    return frozenset((0,))
                return BOOL
            if a is TOP or b is TOP or len(a) * len(b) > 256:
                return TOP
            r = set()
            for x in a:
                for y in b:
                    z = arith(op.rstrip('=') if k == 'CompoundAssignOperator' else op, x, y)
                    if z is None:
                        return TOP
                    r.add(z)
            return frozenset(r) if len(r) <= LIM else TOP
        if 'callee' in nd and k != 'CXXConstructExpr':
            if self.callhook:
                r = self.callhook(f, nd, st)
                if r is not NotImplemented:
                    return r
            ts = self.m.targets(nd)
            if not ts:
                return TOP
            if nd.get('virt') and len(ts) != len(self.m.target_keys(nd)) and any(
                    k2 not in self.m.fns and not (self.m.fdecl.get(k2) or {}).get('pure') for k2 in self.m.target_keys(nd)):
                return TOP
            r = frozenset()
            for t in ts:
                args = [self.ev(f, a, st) for a in nd.get('args', ())]
                v = self.returns(t, args)
                r = join(r, v)
                if r is TOP:
                    return TOP
            return r
        if k == 'InitListExpr' and len(nd.get('c', ())) == 1:
            return self.ev(f, nd['c'][0], st)
        if k == 'CXXDefaultArgExpr' and nd.get('c'):
            return self.ev(f, nd['c'][0], st)
        return TOP

    # ---- refinement
    def refine(self, f, i, truth, st):
        """returns the refined state or None when the branch is infeasible"""
        nd = f.nodes[i]
        k = nd['k']
        v = self.ev(f, i, st)
        if v is not TOP:
            if truth and v == frozenset((0,)):
                return None
            if not truth and 0 not in v:
                return None
        if k == 'UnaryOperator' and nd['op'] == '!':
            return self.refine(f, nd['sub'], not truth, st)
        if k == 'BinaryOperator' and nd['op'] in ('&&', '||'):
            if (nd['op'] == '&&') == truth:
                st = self.refine(f, nd['lhs'], truth, st)
                return None if st is None else self.refine(f, nd['rhs'], truth, st)
            return st
        if k == 'BinaryOperator' and nd['op'] in CMP:
            op = nd['op'] if truth else NEG[nd['op']]
            for a, b, o in ((nd['lhs'], nd['rhs'], op), (nd['rhs'], nd['lhs'], SWAP[op])):
                av = f.var(a)
                if av is not None and av in st:
                    bv = self.ev(f, b, st)
                    if bv is not TOP:
                        keep = frozenset(x for x in st[av] if any(CMP[o](x, y) for y in bv))
                        if not keep:
                            return None
                        st = dict(st)
                        st[av] = keep
                elif av is not None and o == '==':
                    bv = self.ev(f, b, st)
                    if bv is not TOP:
                        st = dict(st)
                        st[av] = bv
            return st
        av = f.var(i)
        if av is not None:
            if av in st:
                keep = frozenset(x for x in st[av] if bool(x) == truth)
                if not keep:
                    return None
                st = dict(st)
                st[av] = keep
            elif not truth:
                st = dict(st)
                st[av] = frozenset((0,))
        if k == 'BinaryOperator' and nd['op'] == '=':
            return self.refine(f, nd['lhs'], truth, st)
        return st

    # ---- transfer
    def step(self, f, e, st):
        if isinstance(e, dict):
            return st
        nd = f.nodes[e]
        k = nd['k']
        if k == 'DeclStmt':
            for d in nd['decls']:
                if 'v' in d:
                    st = dict(st)
                    if 'init' in d and not d['t'].endswith('&'):
                        v = self.ev(f, d['init'], st)
                        if v is TOP:
                            st.pop(d['v'], None)
                        else:
                            st[d['v']] = v
                    else:
                        st.pop(d['v'], None)
            return st
        if is_write_op(nd):
            t = write_target(nd)
            v = f.var(t)
            if k == 'UnaryOperator':
                old = self.ev(f, nd['sub'], st)
                dlt = 1 if nd['op'] == '++' else -1
                val = TOP if old is TOP else frozenset(x + dlt for x in old)
                if val is not TOP and any(abs(x) > 4096 for x in val):
                    val = TOP
            else:
                val = self.ev(f, e, st)
            if v is not None:
                st = dict(st)
                if val is TOP or f.vars[v]['t'].endswith('&'):
                    st.pop(v, None)
                else:
                    st[v] = val
            elif self.store:
                self.store(f, nd, t, val, st)
            return st
        if 'args' in nd:
            for a in nd['args']:
                x = f.nodes[f.strip(a)]
                if x['k'] == 'UnaryOperator' and x['op'] == '&':
                    v = f.var(x['sub'])
                    if v is not None and v in st:
                        st = dict(st)
                        st.pop(v)
            pts = nd.get('pt', [])
            for ai, a in enumerate(nd['args']):
                if ai < len(pts) and pts[ai].endswith('&') and not pts[ai].startswith('const '):
                    v = f.var(a)
                    if v is not None and v in st:
                        st = dict(st)
                        st.pop(v)
        return st

    # ---- solving
    def solve(self, f, init=None, start=None):
        """in-states per block: {block: state}; start = optional {block: state}"""
        ins = {}
        wl = deque()
        cnt = {}
        if start is None:
            start = {f.entry: dict(init or {})}
        for b, s in start.items():
            ins[b] = s
            wl.append(b)
        for hb in f.d.get('tryblocks', []):
            ins.setdefault(hb, {})
            wl.append(hb)
        while wl:
            b = wl.popleft()
            st = ins[b]
            blk = f.blocks[b]
            for e in blk['e']:
                st = self.step(f, e, st)
            for idx, s in enumerate(blk['s']):
                if s is None:
                    continue
                st2 = self.edge(f, blk, idx, st)
                if st2 is None:
                    continue
                if s not in ins:
                    ins[s] = st2
                    wl.append(s)
                else:
                    j = jstate(ins[s], st2)
                    if j != ins[s]:
                        cnt[s] = cnt.get(s, 0) + 1
                        if cnt[s] > 40:
                            j = {k: v for k, v in j.items() if ins[s].get(k) == v}
                        ins[s] = j
                        wl.append(s)
        return ins

    def edge(self, f, blk, idx, st):
        if 'cond' not in blk or len(blk['s']) < 2:
            return st
        term = f.nodes[blk['term']] if 'term' in blk else None
        if term is None:
            return st
        if term['k'] == 'SwitchStmt':
            s = blk['s'][idx]
            lab = f.blocks[s].get('label')
            sv = f.var(blk['cond'])
            ln = f.nodes[lab] if lab is not None else None
            val = self.ev(f, blk['cond'], st)
            if ln is not None and ln['k'] == 'CaseStmt' and 'cval' in ln:
                vals = self.case_values(f, s, ln)
                if val is not TOP:
                    keep = val & vals
                    if not keep:
                        return None
                    vals = keep
                if sv is not None:
                    st = dict(st)
                    st[sv] = frozenset(vals)
            elif val is not TOP:
                allv = set()
                for x in blk['s']:
                    if x is None:
                        continue
                    l2 = f.blocks[x].get('label')
                    if l2 is not None and f.nodes[l2]['k'] == 'CaseStmt' and 'cval' in f.nodes[l2]:
                        allv |= self.case_values(f, x, f.nodes[l2])
                keep = frozenset(x for x in val if x not in allv)
                if not keep:
                    return None
                if sv is not None:
                    st = dict(st)
                    st[sv] = keep
            return st
        if term['k'] == 'CXXForRangeStmt' or term['k'] == 'CXXTryStmt':
            return st
        return self.refine(f, blk['cond'], idx == 0, st)

    @staticmethod
    def case_values(f, s, ln):
        vals = set()
        while ln['k'] == 'CaseStmt':
            vals.add(ln['cval'])
            sub = f.nodes[ln['sub']]
            break
        return frozenset(vals)

    def return_values(self, f, ins):
        r = frozenset()
        for b, st in ins.items():
            for e in f.blocks[b]['e']:
                if not isinstance(e, dict):
                    nd = f.nodes[e]
                    if nd['k'] == 'ReturnStmt':
                        r = join(r, self.ev(f, nd['val'], st) if 'val' in nd else frozenset())
                        if r is TOP:
                            return TOP
                st = self.step(f, e, st)
        return r

    def returns(self, f, args=()):
        """possible return values of f"""
        key = (f.key, tuple(args))
        if key in self.memo:
            return self.memo[key]
        if len(self.stack) >= self.depth or f.key in self.stack or not f.blocks:
            return TOP
        t = f.d['ret']
        if '*' in t or t.startswith('class') or 'std::' in t:
            return TOP
        self.stack.append(f.key)
        try:
            init = {}
            for p, a in zip(f.params, args):
                if a is not TOP and not f.vars[p]['t'].endswith('&'):
                    init[p] = a
            ins = self.solve(f, init)
            r = self.return_values(f, ins)
        finally:
            self.stack.pop()
        self.memo[key] = r
        return r
