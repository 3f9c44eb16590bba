"""Small control-flow services: element positions, reaching definitions of locals, dominators."""
from collections import deque
from .effects import is_write_op, write_target


def positions(f):
    """node -> (block, index) of the CFG element that evaluates it"""
    if '_pos' not in f.__dict__:
        pos = {}
        for b in f.blocks.values():
            for k, e in enumerate(b['e']):
                i = e if isinstance(e, int) else e.get('e') if isinstance(e, dict) else None
                if isinstance(i, int):
                    pos.setdefault(i, (b['id'], k))
            if 'cond' in b and isinstance(b['cond'], int):
                pos.setdefault(b['cond'], (b['id'], len(b['e'])))
        # subexpressions without an element of their own belong to the nearest enclosing element
        for i in range(len(f.nodes)):
            if i in pos:
                continue
            for a in f.ancestors(i):
                if a['i'] in pos:
                    pos[i] = pos[a['i']]
                    break
        f.__dict__['_pos'] = pos
    return f.__dict__['_pos']


def defs_in(f, e):
    """(local, value node or None) defined by CFG element e"""
    if isinstance(e, dict):
        return
    nd = f.nodes[e]
    if nd['k'] == 'DeclStmt':
        for d in nd['decls']:
            if 'v' in d:
                yield d['v'], d.get('init')
    elif nd['k'] == 'CXXOperatorCallExpr' and nd.get('op') == '=' and nd.get('args'):
        v = f.var(nd.get('obj', nd['args'][0]))
        if v is not None:
            yield v, nd['args'][-1]
    elif is_write_op(nd):
        v = f.var(write_target(nd))
        if v is not None and nd['k'] == 'BinaryOperator' and nd['op'] == '=':
            yield v, nd['rhs']


def reaching(f):
    """block -> {local: set of value nodes that may be its last assignment} at the block's start"""
    if '_rd' not in f.__dict__:
        ins = {f.entry: {}}
        wl = deque([f.entry] + list(f.d.get('tryblocks', [])))
        for b in f.d.get('tryblocks', []):
            ins.setdefault(b, {})
        while wl:
            b = wl.popleft()
            cur = dict(ins[b])
            for e in f.blocks[b]['e']:
                for v, i in defs_in(f, e):
                    cur[v] = frozenset([i])
            for s in f.blocks[b]['s']:
                if s is None:
                    continue
                if s not in ins:
                    ins[s] = dict(cur)
                    wl.append(s)
                    continue
                ch = False
                for v, x in cur.items():
                    y = ins[s].get(v, frozenset()) | x
                    if y != ins[s].get(v):
                        ins[s][v] = y
                        ch = True
                if ch:
                    wl.append(s)
        f.__dict__['_rd'] = ins
    return f.__dict__['_rd']


def defs_at(f, v, i):
    """value nodes that local v may hold where node i is evaluated; None: unknown"""
    pos = positions(f).get(i)
    rd = reaching(f)
    if pos is None or pos[0] not in rd:
        return None
    cur = rd[pos[0]].get(v)
    for e in f.blocks[pos[0]]['e'][:pos[1]]:
        for w, x in defs_in(f, e):
            if w == v:
                cur = frozenset([x])
    return cur


def dominators(f):
    if '_dom' not in f.__dict__:
        r = f.reachable
        pr = f.preds()
        dom = {b: set(r) for b in r}
        dom[f.entry] = {f.entry}
        ch = True
        while ch:
            ch = False
            for b in r:
                if b == f.entry:
                    continue
                ps = [dom[p] for p, _ in pr[b] if p in r]
                n = set.intersection(*ps) | {b} if ps else {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        f.__dict__['_dom'] = dom
    return f.__dict__['_dom']


def dominates(f, i, j):
    """is node i evaluated on every path to node j?"""
    p = positions(f)
    a, b = p.get(i), p.get(j)
    if a is None or b is None or b[0] not in dominators(f):
        return False
    if a[0] == b[0]:
        return a[1] < b[1]
    return a[0] in dominators(f)[b[0]]
