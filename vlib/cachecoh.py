"""Cache coherence: every option that a cached computation depends on is tied to the cache's invalidation."""
from .pairs import Pairs
from rules import common as C


def tainted_by(f, ctx, field):
    return C.locals_copied_from(f, ctx, field)


def coherence(m, rep, what, deps, ev_invalidate, cache_absent, roots, allow_writers=()):
    """deps: {field: (fn key, node)}: handle option fields the cached computation reads.
    roots: API functions that may change options. ev_invalidate(f,node) direct invalidation event."""
    eff = C.effects(m)
    reach = m.reach(roots)
    for field, (rk, rn) in sorted(deps.items()):
        wr = set()
        for k in reach:
            f = m.fns[k]
            for i, l in eff.events(f).items():
                for kind, fld, base in l:
                    if kind in ('w',) and fld == field:
                        wr.add(k)
        if not wr:
            rep.count('options_never_written_after_init')
            continue

        def ev_a(f, nd, ctx, field=field):
            return C.writes_field(f, nd, ctx, field)

        def ev_b(f, nd, ctx):
            return ev_invalidate(f, nd)

        def excuse(f, cond, truth, ctx, field=field):
            return cache_absent(f, cond, truth) or unchanged(f, cond, truth, ctx, field)

        def callctx(f, nd, t, ctx, field=field):
            return C.field_ptr_ctx(f, nd, t, ctx, field)
        P = Pairs(m, ev_a, ev_b, excuse, callctx)
        rep.count('option_cache_pairs_checked')
        bad = False
        for r in roots:
            if r.key not in reach:
                continue
            outs = P.summary(r, frozenset())
            if (1, 0) in outs:
                bad = True
                where = None
                for k in sorted(wr):
                    f = m.fns[k]
                    for nd in f.nodes:
                        if C.writes_field(f, nd, frozenset(range(len(f.params))) if k != r.key else frozenset(), field):
                            where = where or f.where(nd)
                rf = m.fns[rk]
                rep.bad('stale-cache', where or r.where(),
                        'option field %s is changed here on a path that does not invalidate the %s cache, but the cached computation reads it at %s' % (field, what, rf.where(rn)),
                        '%s|%s' % (what, field))
        if not bad:
            rep.sample('coherent_options', '%s -> %s cache' % (field, what))


def unchanged(f, cond, truth, ctx, field):
    nd = f.nodes[f.strip(cond)]
    neg = False
    while nd['k'] == 'UnaryOperator' and nd['op'] == '!':
        neg = not neg
        nd = f.nodes[f.strip(nd['sub'])]
    t = truth != neg
    if nd['k'] == 'BinaryOperator' and nd['op'] in ('==', '!='):
        loc = C.locals_copied_from(f, ctx, field)
        rd = [C.reads_field_expr(f, nd[s], ctx, field, loc) for s in ('lhs', 'rhs')]
        if any(rd) and not (f.const(nd['lhs']) is not None or f.const(nd['rhs']) is not None):
            return (nd['op'] == '==') == t
        # a boolean local holding the comparison is resolved below
    if nd['k'] == 'DeclRefExpr' and nd.get('dk') == 'var':
        v = nd['v']
        for d in f.nodes:
            if d['k'] == 'DeclStmt':
                for x in d['decls']:
                    if x.get('v') == v and 'init' in x:
                        i2 = f.nodes[f.strip(x['init'])]
                        if i2['k'] == 'BinaryOperator' and i2['op'] in ('==', '!='):
                            return unchanged(f, i2['i'], t, ctx, field)
    return False
