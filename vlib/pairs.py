"""Disjunctive event-pair dataflow: on every path, does event B accompany event A?

State = set of (a, b) bit pairs. Used for 'whenever an option is written the cache is invalidated on the same path'.
"""
from collections import deque


class Pairs:
    """ev_a(f, node, ctx) / ev_b(f, node, ctx) -> bool for direct events; excuse(f, cond node, truth, ctx) -> bool: edge counts as b.
    ctx = frozenset of parameter indices that alias the tracked location."""

    def __init__(self, m, ev_a, ev_b, excuse, callctx, infeasible=None):
        self.m, self.ev_a, self.ev_b, self.excuse, self.callctx = m, ev_a, ev_b, excuse, callctx
        self.infeasible = infeasible
        self.memo = {}
        self.stack = []

    def summary(self, f, ctx):
        key = (f.key, ctx)
        if key in self.memo:
            return self.memo[key]
        if key in self.stack:
            return frozenset({(0, 0)})
        self.stack.append(key)
        outs = self.run(f, ctx)
        self.stack.pop()
        self.memo[key] = outs
        return outs

    def step(self, f, e, S, ctx):
        if isinstance(e, dict):
            return S
        nd = f.nodes[e]
        a, b = self.ev_a(f, nd, ctx), self.ev_b(f, nd, ctx)
        if a or b:
            S = frozenset((x | int(a), y | int(b)) for x, y in S)
        if nd.get('callee'):
            ts = self.m.targets(nd)
            if ts:
                r = set()
                for t in ts:
                    for (x2, y2) in self.summary(t, self.callctx(f, nd, t, ctx)):
                        for (x, y) in S:
                            r.add((x | x2, y | y2))
                S = frozenset(r)
        return S

    def run(self, f, ctx, trace=None):
        ins = {f.entry: frozenset({(0, 0)})}
        wl = deque([f.entry])
        while wl:
            b = wl.popleft()
            S = ins[b]
            blk = f.blocks[b]
            for e in blk['e']:
                S = self.step(f, e, S, ctx)
            for idx, s in enumerate(blk['s']):
                if s is None:
                    continue
                S2 = S
                if 'cond' in blk and len(blk['s']) == 2 and f.nodes[blk['term']]['k'] != 'SwitchStmt':
                    if self.excuse(f, blk['cond'], idx == 0, ctx):
                        S2 = frozenset((x, 1) for x, y in S)
                n = ins.get(s, frozenset()) | S2
                if n != ins.get(s):
                    ins[s] = n
                    wl.append(s)
        return ins.get(f.exit, frozenset())
