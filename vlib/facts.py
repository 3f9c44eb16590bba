"""Must-hold comparison facts: forward dataflow of atoms (term, op, term) established by branch conditions; join = intersection."""
from collections import deque
from .sym import Sym, subterms
from .effects import is_write_op, write_target
from .valset import NEG, SWAP

CASTS = ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'ImplicitCastExpr', 'ParenExpr')


def canon(a, op, b):
    """one spelling per atom; '>' and '>=' are turned round, == / != ordered"""
    if op in ('>', '>='):
        a, b, op = b, a, SWAP[op]
    if op in ('==', '!=') and repr(a) > repr(b):
        a, b = b, a
    return (a, op, b)


class Facts:
    def __init__(self, m, sym=None, eff=None):
        self.m = m
        self.sym = sym or Sym(m)
        self.eff = eff
        self._in = {}
        self._w = {}

    def atoms(self, f, i, truth):
        """atoms that hold when expression i is true / false"""
        nd = f.nodes[i]
        while nd['k'] in CASTS and 'sub' in nd:
            i = nd['sub']
            nd = f.nodes[i]
        k = nd['k']
        if k == 'UnaryOperator' and nd['op'] == '!':
            return self.atoms(f, nd['sub'], not truth)
        if k == 'BinaryOperator' and nd['op'] in ('&&', '||'):
            if (nd['op'] == '&&') == truth:
                return self.atoms(f, nd['lhs'], truth) | self.atoms(f, nd['rhs'], truth)
            return frozenset()
        if k == 'BinaryOperator' and nd['op'] in NEG:
            op = nd['op'] if truth else NEG[nd['op']]
            r = frozenset((canon(self.sym(f, nd['lhs']), op, self.sym(f, nd['rhs'])),))
            for a, b in ((nd['lhs'], nd['rhs']), (nd['rhs'], nd['lhs'])):
                x = f.nodes[f.strip(a)]
                if x['k'] == 'BinaryOperator' and x['op'] == '=':
                    l, o = self.sym(f, x['lhs']), op
                    r |= {canon(l, o, self.sym(f, b)) if a == nd['lhs'] else canon(self.sym(f, b), o, l)}
            return r
        if k == 'BinaryOperator' and nd['op'] == '=':
            return self.atoms(f, nd['lhs'], truth)
        if k == 'DeclRefExpr' and nd.get('dk') == 'var' and f.vars[nd['v']]['t'] in ('bool', 'const bool'):
            sd = self.sym.single_defs(f)
            if nd['v'] in sd:
                return self.atoms(f, sd[nd['v']], truth)
        t = self.sym(f, i)
        return frozenset((canon(t, '!=' if truth else '==', ('c', 0)),))

    def kills(self, f, e):
        """(vars, fields, all elements?) written by CFG element e"""
        if isinstance(e, dict):
            return (), ()
        nd = f.nodes[e]
        vs, fs = [], []
        if nd['k'] == 'DeclStmt':
            vs += [d['v'] for d in nd['decls'] if 'v' in d]
        if is_write_op(nd):
            p = f.path(write_target(nd))
            if p[0] == 'v':
                vs.append(p[1])
            elif p[0] == 'f':
                fs.append(p[2])
            else:
                q = p
                while q[0] in ('e', 'd'):
                    q = q[1]
                if q[0] == 'f':
                    fs.append(q[2])
        if nd.get('callee'):
            for a in nd.get('args', ()):
                x = f.nodes[f.strip(a)]
                if x['k'] == 'UnaryOperator' and x['op'] == '&':
                    v = f.var(x['sub'])
                    if v is not None:
                        vs.append(v)
            pts = nd.get('pt', [])
            for ai, a in enumerate(nd.get('args', ())):
                if ai < len(pts) and pts[ai].endswith('&') and not pts[ai].startswith('const '):
                    v = f.var(a)
                    if v is not None:
                        vs.append(v)
            if self.eff is not None:
                for t in self.m.targets(nd):
                    if t.key not in self._w:
                        self._w[t.key] = frozenset(self.eff.transitive([t])[1])
                    fs += self._w[t.key]
        return vs, fs

    def step(self, f, e, S):
        vs, fs = self.kills(f, e)
        if not vs and not fs or not S:
            return S
        kv = {('var', f.key, v) for v in vs} | {('p', f.params.index(v)) for v in vs if v in f.params}
        ks = set(fs)
        sd = self.sym.single_defs(f)
        nd = f.nodes[e]
        if nd['k'] != 'DeclStmt':
            kv |= {t for t in (self.sym(f, sd[v]) for v in vs if v in sd) if t[0] == 'x'}

        def dead(atom):
            for t in (atom[0], atom[2]):
                for s in subterms(t):
                    if s in kv or (s[0] == 'fld' and s[2] in ks):
                        return True
            return False
        return frozenset(a for a in S if not dead(a))

    def solve(self, f, entry=frozenset()):
        key = (f.key, entry)
        if key in self._in:
            return self._in[key]
        ins = {f.entry: entry}
        wl = deque([f.entry])
        for h in f.d.get('tryblocks', []):
            ins.setdefault(h, frozenset())
            wl.append(h)
        while wl:
            b = wl.popleft()
            S = ins[b]
            blk = f.blocks[b]
            for e in blk['e']:
                S = self.step(f, e, S)
            for idx, s in enumerate(blk['s']):
                if s is None:
                    continue
                S2 = S | self.edge(f, blk, idx)
                if s not in ins:
                    ins[s] = S2
                    wl.append(s)
                else:
                    j = ins[s] & S2
                    if j != ins[s]:
                        ins[s] = j
                        wl.append(s)
        self._in[key] = ins
        return ins

    def edge(self, f, blk, idx):
        if 'cond' not in blk or 'term' not in blk or len([x for x in blk['s']]) != 2:
            if 'term' in blk and f.nodes[blk['term']]['k'] == 'SwitchStmt' and 'cond' in blk:
                lab = f.blocks[blk['s'][idx]].get('label')
                if lab is not None and f.nodes[lab]['k'] == 'CaseStmt' and 'cval' in f.nodes[lab]:
                    return frozenset((canon(self.sym(f, blk['cond']), '==', ('c', f.nodes[lab]['cval'])),))
            return frozenset()
        if f.nodes[blk['term']]['k'] in ('SwitchStmt', 'CXXForRangeStmt', 'CXXTryStmt'):
            return frozenset()
        return self.atoms(f, blk['cond'], idx == 0)

    def at(self, f, node, entry=frozenset()):
        """facts that hold just before CFG element `node` (intersection over its occurrences)"""
        ins = self.solve(f, entry)
        r = None
        for b, S in ins.items():
            for e in f.blocks[b]['e']:
                if e == node:
                    r = S if r is None else r & S
                S = self.step(f, e, S)
        return r if r is not None else frozenset()
