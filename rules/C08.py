"""Memory that an operation obtains is released exactly once, in the matching form, and never used afterwards.

Rule 1 (path-sensitive ownership typestate, every library function, summaries at calls): each block obtained with new, new[] or a
function that returns a fresh block is, on every return path, released once with the matching form, returned, stored in a longer-lived
object or handed to a function that keeps it; no released block is used, released again or left in a member of a living object.
Rule 2: every member that ever receives a fresh block is released by the destructor or terminate operation of its class (or by code
that these reach), with the matching form; members that hold several blocks have their elements released.
Rule 3: outside constructors a member receives a new block only when the old one was released or is null.
"""
from collections import defaultdict
from rules import common as C
from vlib.effects import is_write_op
from vlib.flow import defs_at, dominates
from vlib.own import Own, field_aliases, mentions, vwalk

RULE = 'path-sensitive ownership typestate of every raw block in every library function, plus release obligations of owning members'
ASSUMPTIONS = ['paths on which an exception is thrown are not followed here (C18 covers failed initialisation)',
               'blocks put into standard containers are followed only as far as rule 2 (released by the owner)',
               'exploration is capped at 600 abstract states per program point; functions that hit the cap are listed in the notes']

PROP = {
    'id': 'C08', 'title': 'Memory obtained by an operation is released exactly once',
    'statement': 'However an operation returns, every temporary block it obtained has been released exactly once and in the form matching its allocation, or has been handed to the caller or to the object that owns it; '
                 'released memory is never used again, and an object releases every block it owns when it is destroyed. Repeating any operation, with any input, therefore neither loses memory nor corrupts it.',
    'quantifier': {'over': ['inputs', 'histories'], 'text': 'all operations, inputs, options and return paths (allocation failure aside)'},
    'why_tests_cant': 'The tests do not look at memory, and a leak or double release on an early return shows only for the input that takes that return.',
    'anchors': {'files': ['libvoikko/src'],
                'mechanism': [{'name': 'new / delete pairs on all return paths', 'where': 'libvoikko/src/**/*.cpp'},
                              {'name': 'destructors and terminate() operations', 'where': 'libvoikko/src/fst, libvoikko/src/morphology, libvoikko/src/spellchecker, libvoikko/src/grammar'}],
                'observe_at': ['all functions of voikko.h']}}

KINDS = ('leak', 'double-free', 'mismatch', 'use-after-free', 'dangling')


def ownership(m):
    if not hasattr(m, '_own'):
        o = Own(m, C.effects(m))
        for f in m.fns.values():
            if not f.file.startswith('tools/'):
                o.summary(f)
        m._own = (o, {(kind, f.key, nd['i']): (kind, f, nd, msg) for l in o.reports.values() for kind, f, nd, msg in l})
    return m._own


def label(f, nd):
    """stable name of the allocation: the variable it goes to or what it calls"""
    return nd.get('cn') or nd.get('t') or nd['k']


def elem_of(f, i):
    """(root path, is the expression an element / pointee of it?)"""
    p = f.path(i)
    el = False
    while p[0] in ('e', 'd', 'a'):
        el = el or p[0] in ('e', 'd')
        p = p[1]
    return p, el


def fields_of(f, i):
    """(member, is the expression only a part of what the member holds?)"""
    der = field_aliases(f)
    p, el = elem_of(f, i)
    if p[0] == 'f':
        yield p[2], el
        q = p[1]
        while q[0] in ('e', 'd', 'f'):
            if q[0] == 'f':
                yield q[2], True
            q = q[1]
        if q[0] == 'v':
            for d in der.get(q[1], ()):
                yield d, True
        elif q[0] == 'x':       # it->second
            for x in vwalk(f, i):
                for d in mentions(f, x, der):
                    if d != p[2]:
                        yield d, True
        return
    der = local_aliases(f, i, der)
    whole = not el and f.nodes[f.strip(i)]['k'] in ('DeclRefExpr', 'CXXMemberCallExpr', 'CallExpr')
    for x in vwalk(f, i):
        for d in mentions(f, x, der):
            yield d, not whole
            if whole and f.nodes[f.strip(i)]['k'] == 'DeclRefExpr':
                yield d, True       # a local walking along the elements


def local_aliases(f, i, der):
    """aliases of the locals used in expression i, narrowed to the assignments that reach it"""
    out = dict(der)
    for x in vwalk(f, i):
        if x['k'] == 'DeclRefExpr' and x.get('dk') == 'var' and len(der.get(x['v'], ())) > 1:
            ds = defs_at(f, x['v'], x['i'])
            if ds and None not in ds:
                n = set()
                for d in ds:
                    for y in vwalk(f, d):
                        n |= mentions(f, y, der)
                out[x['v']] = n
    return out


def release_sites(m, o, f):
    """(argument, kinds) of everything this function releases"""
    for nd in f.nodes:
        if nd['k'] == 'CXXDeleteExpr':
            yield nd, nd['arg'], {'new[]' if nd.get('array') else 'new'}
        elif nd.get('callee'):
            if nd.get('cn') == 'free' and nd.get('args') and not m.targets(nd):
                yield nd, nd['args'][0], {'malloc'}
            for t in m.targets(nd):
                s = o.summary(t)
                for ai, a in enumerate(nd.get('args', ())):
                    if 'freed' in s.params.get(ai, ()):
                        yield nd, a, set(s.frees.get(ai, ()))


def releases(m, o):
    out = defaultdict(list)
    for f in m.fns.values():
        if f.file.startswith('tools/'):
            continue
        for nd, a, ks in release_sites(m, o, f):
            for fld, el in fields_of(f, a):
                out[fld].append((f, nd, ks, el))
    return out


def run(m, rep, tier):
    o, found = ownership(m)
    rep.count('functions_interpreted', o.stats['functions'])
    rep.count('abstract_states', o.stats['states'])
    rep.count('allocation_sites', len(o.stats['allocations']))
    rep.count('release_sites', len(o.stats['releases']))
    rep.need(len(o.stats['allocations']), 60, 'allocation sites')
    for q in sorted(o.stats.get('capped', ())):
        rep.note('state cap reached in ' + q)
    for (kind, _, _), (kind, f, nd, msg) in sorted(found.items()):
        if kind in KINDS:
            rep.bad(kind, f.where(nd), msg, '%s|%s' % (f.q, label(f, nd)))
    rel = releases(m, o)
    owning_members(m, o, rep, rel)
    consistent_params(m, o, rep)
    deep_arrays(m, o, rep)
    from rules.C09 import release_loops
    release_loops(m, o, rep)
    local_containers(m, o, rep)
    drained(m, o, rep)
    element_overwrites(m, o, rep)
    borrowed_elements(m, o, rep, rel)


def uncast(f, i):
    """(node below casts, was const dropped on the way?)"""
    drop = False
    nd = f.nodes[i]
    while 'sub' in nd and nd['k'] in ('CXXConstCastExpr', 'CStyleCastExpr', 'CXXReinterpretCastExpr', 'ParenExpr', 'ImplicitCastExpr', 'CXXStaticCastExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ExprWithCleanups'):
        sub = f.nodes[nd['sub']]
        if nd['k'] in ('CXXConstCastExpr', 'CStyleCastExpr', 'CXXReinterpretCastExpr') and sub.get('t', '').startswith('const ') and not nd.get('t', '').startswith('const '):
            drop = True
        nd = sub
    return nd, drop


def conditional(f, node):
    """is this CFG element reached only under a condition other than that of a loop?"""
    at = [b for b, blk in f.blocks.items() if node in [e for e in blk['e'] if not isinstance(e, dict)]]
    if not at:
        return True
    at = at[0]

    def reach(s, avoid):
        seen, st = set(), [s]
        while st:
            b = st.pop()
            if b is None or b in seen or b == avoid:
                continue
            seen.add(b)
            st.extend(f.blocks[b]['s'])
        return seen
    for b, blk in f.blocks.items():
        ss = [x for x in blk['s'] if x is not None]
        if len(ss) < 2 or 'term' not in blk or 'cond' not in blk and f.nodes[blk['term']]['k'] != 'SwitchStmt':
            continue
        hit = [at in reach(x, b) for x in ss]
        if any(hit) and not all(hit):
            back = [any(b in f.blocks[y]['s'] for y in reach(x, b)) for x in ss]
            loopexit = all(bk for h, bk in zip(hit, back) if h) and not any(bk for h, bk in zip(hit, back) if not h)
            if not loopexit:
                return True
    return False


def borrowed_elements(m, o, rep, rel):
    """a container that also holds pointers to memory of others must not release its elements unconditionally"""
    lent = {}
    for f in m.fns.values():
        if f.file.startswith('tools/'):
            continue
        for nd in f.nodes:
            if nd.get('cn') in ('insert', 'push_back', 'push_front', 'emplace', 'emplace_back', 'insert_or_assign') and 'obj' in nd and not m.targets(nd):
                p = f.path(nd['obj'])
                if p[0] != 'f':
                    continue
                for a in nd.get('args', ()):
                    for x in f.walk(a):
                        if uncast(f, x['i'])[1] and x.get('t', '').endswith('*'):
                            lent[p[2]] = (f, nd)
    for fld, (g, gnd) in sorted(lent.items()):
        for f, nd, ks, el in rel.get(fld, ()):
            rep.count('releases_from_mixed_containers')
            if el and not conditional(f, nd['i']):
                rep.bad('borrowed-released', f.where(nd), 'every element of %s is released here, also those that belong to others (inserted at %s)' % (fld, g.where(gnd)), '%s|%s' % (f.q, fld))


def owning_members(m, o, rep, rel):
    enders = [f for f in m.fns.values() if f.d.get('dtor') or 'terminate' in f.name.lower()]
    free_api = [f for f in m.exported() if 'free' in f.name.lower()]
    endreach = set(m.reach(enders + free_api))
    for fld in sorted(o.stores):
        rec = fld.rsplit('::', 1)[0]
        if rec not in m.records:
            continue
        sts = set()
        for f, nd, k, old in o.stores[fld]:
            if not live_class(m, f):
                continue
            if isinstance(k, tuple):
                g = o.given.get((f.key, k[1]))
                if not g or o.summary(f).params.get(k[1], {'in'}) <= {'in', 'null'}:
                    continue
                k = g[2]
            if k:
                sts.add((f.key, nd['i'], k, old))
        if not sts:
            continue
        rep.count('owning_members')
        fam = {rec} | m.subclasses(rec)
        for fk, ni, k, old in sorted(sts):
            f = m.fns[fk]
            nd = f.nodes[ni]
            rs = [r for r in rel.get(fld, ()) if r[0].key in endreach]
            if f.cls in fam:
                line = {f.cls} | set(m.bases(f.cls)) | m.subclasses(f.cls)
                rs = [r for r in rs if r[0].cls not in fam or r[0].cls in line]
            if old == 'element':
                if not [r for r in rs if r[3]]:
                    rep.bad('elements-not-released', f.where(nd), 'the blocks put into %s here are not released when their owner is destroyed' % fld, fld)
                continue
            whole = [r for r in rs if not r[3]]
            if not whole and not moved(m, o, fld):
                rep.bad('member-not-released', f.where(nd), 'member %s receives a block here, but nothing reached from the destructor, terminate or free operation of its owner releases it' % fld, '%s|%s' % (fld, f.cls))
            elif whole and k:
                rk = set().union(*[r[2] for r in whole])
                if rk and k not in rk and len({x[2] for x in sts}) == 1:
                    r = whole[0]
                    rep.bad('member-mismatch', r[0].where(r[1]), 'member %s holds blocks from %s but is released as %s' % (fld, k, '/'.join(sorted(rk))), fld)
            # replacing the block of a living object
            if old == 'entry' and not f.d.get('ctor') and nd['k'] == 'BinaryOperator':
                q = f.path(nd['lhs'])
                q = q[1] if q[0] == 'f' else q
                if q == ('this',) or q[0] == 'f' or (q[0] == 'v' and q[1] in f.params and C.strip_ptr(f.vars[q[1]]['t']) == C.handle_record(m)['n']):
                    rep.count('member_replacements')
                    relf = {r[0].key for r in rel.get(fld, ()) if not r[3]}
                    if not any(relf & set(m.reach([t])) for nd2 in f.nodes if nd2.get('callee') for t in m.targets(nd2)):
                        rep.bad('overwritten', f.where(nd), 'member %s is given a new block while the old one has not been released' % fld, '%s|%s' % (f.q, fld))
        # taking elements out of an owning container
        if any(x[3] == 'element' for x in sts):
            for f in m.fns.values():
                for nd in f.nodes:
                    if nd.get('cn') in ('erase', 'clear', 'pop_back', 'pop_front') and 'obj' in nd and not m.targets(nd):
                        q = f.path(nd['obj'])
                        if q[0] == 'f' and q[2] == fld:
                            rep.count('container_removals')
                            if not any(r[0].key == f.key for r in rel.get(fld, ())):
                                rep.bad('removed-not-released', f.where(nd), 'elements are taken out of %s without being released' % fld, '%s|%s' % (f.q, fld))


def local_containers(m, o, rep):
    """blocks put into a container that lives in the function"""
    for (fk, v), sites in sorted(o.local_stores.items()):
        f = m.fns[fk]
        if f.file.startswith('tools/'):
            continue
        rep.count('local_containers_of_blocks')
        der = var_aliases(f)
        names = {v} | {x for x, y in der.items() if v in y}
        ok = False
        for nd2, a, ks in release_sites(m, o, f):
            ok = ok or any(x['k'] == 'DeclRefExpr' and x.get('v') in names for x in vwalk(f, a))
        for nd in f.nodes:
            src = []
            if nd['k'] == 'ReturnStmt' and 'val' in nd:
                src = [nd['val']]
            elif nd.get('callee') and nd['k'] != 'CXXOperatorCallExpr':
                src = [a for a in nd.get('args', ()) if nd.get('cn') not in ('push_back', 'push_front', 'insert', 'emplace_back') or True]
            elif nd['k'] == 'BinaryOperator' and nd['op'] == '=' and f.path(nd['lhs'])[0] in ('f', 'e', 'd'):
                src = [nd['rhs']]
            elif nd['k'] == 'CXXOperatorCallExpr' and nd.get('op') == '=':
                src = nd.get('args', [])[-1:]
            for a in src:
                if any(x['k'] == 'DeclRefExpr' and x.get('v') in names and f.vars[x['v']]['t'].split('<')[0] == f.vars[v]['t'].split('<')[0] for x in f.walk(a)):
                    ok = True       # handed on as a whole
                p, el = elem_of(f, a)
                if el and p[0] == 'v' and p[1] in names or any(x['k'] == 'DeclRefExpr' and x.get('v') in names - {v} for x in vwalk(f, a)):
                    ok = True       # elements handed on
        if not ok:
            g, nd = sites[0]
            rep.bad('container-lost', f.where(nd), 'the blocks put into the local container %s are neither released nor handed on' % f.vname(v), '%s|%s' % (f.q, f.vars[v]['t']))


def drained(m, o, rep):
    """a local queue of objects that hold blocks is emptied completely"""
    for f in m.fns.values():
        if f.file.startswith('tools/'):
            continue
        holds = set()       # locals one of whose members was given a block
        for nd in f.nodes:
            if nd['k'] == 'BinaryOperator' and nd['op'] == '=':
                q = f.path(nd['lhs'])
                r = f.nodes[f.strip(nd['rhs'])]
                if q[0] == 'f' and q[1][0] == 'v' and f.nodes[f.strip(nd['lhs'])].get('t', '').endswith('*'):
                    if r['k'] == 'CXXNewExpr' or r.get('callee') and returned(m, o, r):
                        holds.add(q[1][1])
        if not holds:
            continue
        for v, d in enumerate(f.vars):
            t = (d or {}).get('t', '')
            if not t.startswith('std::') or '*' in t.split('<')[0] or t.rstrip().endswith(('&', '*')):
                continue
            put = [nd for nd in f.nodes if nd.get('cn') in ('push', 'push_back', 'push_front', 'emplace') and 'obj' in nd and f.path(nd['obj']) == ('v', v)
                   and any(x['k'] == 'DeclRefExpr' and x.get('v') in holds for a in nd.get('args', ()) for x in f.walk(a))]
            if not put:
                continue
            loops = []
            for l in f.nodes:
                if l['k'] in ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt') and not any(nd['i'] == p['i'] for p in put for nd in f.walk(l['i'])):
                    if any(x['k'] == 'DeclRefExpr' and x.get('v') == v for x in f.walk(l['i'])):
                        loops.append(l)
            others = [x for x in f.nodes if x['k'] == 'DeclRefExpr' and x.get('v') == v and not any(y['i'] == x['i'] for l in loops + put for y in f.walk(l['i']))]
            rep.count('local_queues_of_owners')
            if len(loops) != 1 or others or loops[0]['k'] not in ('WhileStmt', 'ForStmt'):
                continue
            l = loops[0]
            c = f.nodes[f.strip(l['cond'])] if isinstance(l.get('cond'), int) and l['cond'] >= 0 else None
            if c is not None and c['k'] == 'BinaryOperator' and c['op'] == '&&' and any(x.get('cn') in ('empty', 'size') for x in f.walk(c['i'])):
                rep.bad('container-lost', f.where(l), 'the loop that takes the elements out of %s can end before it is empty: the blocks of the remaining elements are lost' % f.vname(v), '%s|%s' % (f.q, f.vname(v)))
            body = {x['i'] for x in f.walk(l['i'])}
            pops = [x for x in f.nodes if x['i'] in body and x.get('cn') in ('pop', 'pop_front', 'pop_back') and 'obj' in x and f.path(x['obj']) == ('v', v)]
            members = {f.path(nd['lhs'])[2] for nd in f.nodes if nd['k'] == 'BinaryOperator' and nd['op'] == '=' and f.path(nd['lhs'])[0] == 'f' and f.path(nd['lhs'])[1][0] == 'v' and f.path(nd['lhs'])[1][1] in holds}
            hand = set()
            for x in f.nodes:
                if x['i'] in body and (x['k'] == 'CXXDeleteExpr' or x.get('callee') is not None or 'args' in x or is_write_op(x) or x['k'] == 'DeclStmt') and x not in pops and x.get('cn') not in ('top', 'front', 'back', 'empty', 'size'):
                    if any(y['k'] == 'MemberExpr' and f.path(y['i'])[0] == 'f' and f.path(y['i'])[2] in members for y in f.walk(x['i'])):
                        hand.add(x['i'])
                    # the whole element is passed on
                    elif (x.get('callee') is not None) and x['k'] != 'CXXConstructExpr' and any(f.nodes[f.strip(a)]['k'] == 'DeclRefExpr' and 'v' in f.nodes[f.strip(a)] and f.vars[f.nodes[f.strip(a)]['v']].get('t', '').replace('const ', '').rstrip('& ') in t for a in x.get('args', ())):
                        hand.add(x['i'])
            if len(pops) == 1 and hand:
                rep.count('elements_taken_out')
                if lost_on_path(f, pops[0]['i'], hand, body):
                    rep.bad('container-lost', f.where(pops[0]), 'on some path an element taken out of %s is dropped without its block being handed on or released' % f.vname(v), '%s|%s|dropped' % (f.q, f.vname(v)))


def lost_on_path(f, pop, hand, body):
    """can the loop body be passed through pop without passing one of hand?"""
    def flat(b):
        out = []
        for e in f.blocks[b]['e']:
            if isinstance(e, int):
                out += [x['i'] for x in f.walk(e)]
        return set(out)
    el = {b: flat(b) for b in f.blocks} if isinstance(f.blocks, dict) else {b: flat(b) for b in range(len(f.blocks)) if f.blocks[b]}
    pb = [b for b in el if pop in el[b]]
    if not pb:
        return False
    def reach(starts, step):
        seen, st = set(), list(starts)
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            st += [n for n in step(b) if n is not None]
        return seen
    pred = {}
    for b in el:
        for n in f.blocks[b]['s']:
            if n is not None:
                pred.setdefault(n, []).append(b)
    if el[pb[0]] & hand:
        return False
    inside = reach(pb, lambda b: f.blocks[b]['s']) & reach(pb, lambda b: pred.get(b, ()))      # the loop around pop
    # forwards to the loop head, backwards to it, not through a block that hands the element on
    head = [b for b in inside if any(n not in inside for n in f.blocks[b]['s'])]
    if len(head) != 1 or head[0] == pb[0] or el[head[0]] & hand:
        return False
    clear = {b for b in el if not el[b] & hand}
    fwd = reach([pb[0]], lambda b: [n for n in f.blocks[b]['s'] if n in clear and b != head[0]])
    bwd = reach([pb[0]], lambda b: [n for n in pred.get(b, ()) if n in clear and b != head[0]])
    return head[0] in fwd and head[0] in bwd


def returned(m, o, nd):
    """does the call give its caller a block?"""
    return any(x[0] == 'F' for t in m.targets(nd) for x in o.summary(t).ret if isinstance(x, tuple))


def element_overwrites(m, o, rep):
    """an element of an array of blocks is replaced by another element: the old one must have been released"""
    for f in m.fns.values():
        if f.file.startswith('tools/'):
            continue
        for nd in f.nodes:
            if nd['k'] != 'BinaryOperator' or nd['op'] != '=':
                continue
            l = f.nodes[f.strip(nd['lhs'])]
            r = f.nodes[f.strip(nd['rhs'])]
            if l['k'] != 'ArraySubscriptExpr' or r['k'] != 'ArraySubscriptExpr' or l.get('t') not in ('char *', 'wchar_t *'):
                continue
            lp, rp = f.path(l['base']), f.path(r['base'])
            if lp != rp or lp[0] != 'v' or lp[1] not in f.params:
                continue
            rep.count('array_elements_replaced')
            idx = f.path(l['idx'])
            ok = False
            for nd2, a, ks in release_sites(m, o, f):
                x = f.nodes[f.strip(a)]
                if x['k'] == 'ArraySubscriptExpr' and f.path(x['base']) == lp and f.path(x['idx']) == idx and dominates(f, nd2['i'], nd['i']):
                    ok = True
                if x['k'] == 'DeclRefExpr' and dominates(f, nd2['i'], nd['i']):
                    ok = True
            # the old element was saved first (a swap)
            for x in f.nodes:
                if x['k'] == 'DeclStmt':
                    for d in x['decls']:
                        if 'init' in d:
                            y = f.nodes[f.strip(d['init'])]
                            if y['k'] == 'ArraySubscriptExpr' and f.path(y['base']) == lp and dominates(f, x['i'], nd['i']):
                                ok = True
            if not ok:
                rep.bad('element-overwritten', f.where(nd), 'an element of %s is replaced without releasing the block it held' % f.vname(lp[1]), '%s|%s' % (f.q, f.vname(lp[1])))


def consistent_params(m, o, rep):
    """a block handed to a function is always taken over or never"""
    for (fk, k), (g, gnd, kind) in sorted(o.given.items(), key=lambda x: x[0]):
        f = m.fns[fk]
        fin = o.summary(f).params.get(k, {'in'})
        rep.count('ownership_transfers')
        if f.vars[f.params[k]]['t'].rstrip().endswith('&'):
            continue        # the caller's own pointer is updated
        if 'in' in fin and fin & {'esc', 'freed'}:
            rep.bad('half-taken', f.where(), 'parameter %s is taken over (kept or released) on some paths and left to the caller on others; %s hands it a block it owns' % (f.vname(f.params[k]), g.q), '%s|%d' % (f.q, k))


def deep_arrays(m, o, rep):
    """an array or list of blocks is released together with its elements"""
    for f in m.fns.values():
        if f.file.startswith('tools/'):
            continue
        for nd in f.nodes:
            if nd['k'] != 'CXXDeleteExpr':
                continue
            t = f.nodes[f.strip(nd['arg'])].get('t', '').strip()
            base = t.rstrip('*& ').strip()
            arr = t.endswith('**') or t.endswith('* *')
            lst = t.endswith('*') and ('list<' in base or 'vector<' in base) and base.endswith('*>')
            if not (arr or lst) or base.startswith('const') and arr:
                continue
            if lst and 'const' in base.split('<')[1][:6]:
                continue
            p, el = elem_of(f, nd['arg'])
            if p[0] != 'v' or el or allocated_here(f, p[1]):
                continue
            rep.count('arrays_of_blocks_released')
            ok = False
            der = var_aliases(f)
            for nd2, a, ks in release_sites(m, o, f):
                if nd2 is nd:
                    continue
                q, el2 = elem_of(f, a)
                if q == p and not el2:
                    continue
                names = {q} | ({('v', x) for x in der.get(q[1], ())} if q[0] == 'v' else set())
                for x in vwalk(f, a):
                    if x['k'] == 'DeclRefExpr' and x.get('dk') == 'var':
                        names |= {('v', x['v'])} | {('v', y) for y in der.get(x['v'], ())}
                flds = {z for z, _ in fields_of(f, a)}
                if p in names or (p[0] == 'f' and p[2] in flds) or (p[0] == 'x' and flds & {z for z, _ in fields_of(f, nd['arg'])}):
                    ok = True
            if not ok and not elements_moved(f, p):
                rep.bad('elements-lost', f.where(nd), 'the array of blocks is released here, its elements are not', '%s|%s' % (f.q, t))


def var_aliases(f):
    der = defaultdict(set)
    pairs = []
    for nd in f.nodes:
        if nd['k'] == 'DeclStmt':
            pairs += [(d['v'], d['init']) for d in nd['decls'] if 'v' in d and 'init' in d]
        elif nd['k'] == 'BinaryOperator' and nd['op'] == '=' and f.var(nd['lhs']) is not None:
            pairs.append((f.var(nd['lhs']), nd['rhs']))
    ch = True
    while ch:
        ch = False
        for v, i in pairs:
            new = set()
            for x in vwalk(f, i):
                if x['k'] == 'DeclRefExpr' and x.get('dk') == 'var':
                    new |= {x['v']} | der[x['v']]
            if not new <= der[v]:
                der[v] |= new
                ch = True
    return der


def elements_moved(f, p):
    """elements copied out into something else (another array, a list, the result)"""
    der = var_aliases(f)
    for nd in f.nodes:
        src = []
        if nd['k'] == 'BinaryOperator' and nd['op'] == '=':
            l, le = elem_of(f, nd['lhs'])
            if le or l[0] in ('f',):
                src = [nd['rhs']]
        elif nd.get('callee') and nd.get('cn') in ('push_back', 'push_front', 'insert', 'emplace_back'):
            src = nd.get('args', [])
        elif nd['k'] == 'ReturnStmt' and 'val' in nd:
            src = [nd['val']]
        for s in src:
            for x in vwalk(f, s):
                if x['k'] == 'DeclRefExpr' and x.get('dk') == 'var' and x['v'] != p[1] and p[1] in der.get(x['v'], ()):
                    return True
            q, el = elem_of(f, s)
            if el and q == p:
                return True
    return False


def allocated_here(f, v):
    for nd in f.nodes:
        ini = []
        if nd['k'] == 'DeclStmt':
            ini = [d['init'] for d in nd['decls'] if d.get('v') == v and 'init' in d]
        elif nd['k'] == 'BinaryOperator' and nd['op'] == '=' and f.var(nd['lhs']) == v:
            ini = [nd['rhs']]
        if any(f.nodes[f.strip(i)]['k'] == 'CXXNewExpr' for i in ini):
            return True
    return False


def moved(m, o, fld):
    """is the member's block passed to something that keeps or releases it (directly or through a local variable)?"""
    for f in m.fns.values():
        loc = set()
        for nd in f.nodes:
            if nd['k'] == 'DeclStmt':
                for d in nd['decls']:
                    if 'v' in d and 'init' in d:
                        p = f.path(d['init'])
                        if p[0] == 'f' and p[2] == fld:
                            loc.add(d['v'])
            elif nd['k'] == 'BinaryOperator' and nd['op'] == '=' and f.var(nd['lhs']) is not None:
                p = f.path(nd['rhs'])
                if p[0] == 'f' and p[2] == fld:
                    loc.add(f.var(nd['lhs']))

        def its(i):
            p = f.path(i)
            return p[0] == 'f' and p[2] == fld or p[0] == 'v' and p[1] in loc
        for nd in f.nodes:
            if nd.get('callee') and nd.get('args'):
                for ai, a in enumerate(nd['args']):
                    if its(a):
                        for t in m.targets(nd):
                            if o.summary(t).params.get(ai, {'in'}) - {'in', 'null'}:
                                return True
            elif nd['k'] == 'CXXDeleteExpr' and loc and isinstance(nd.get('sub', nd.get('arg')), int) and f.var(nd.get('sub', nd.get('arg'))) in loc:
                return True
    return False


def live_class(m, f):
    """is the class of this method ever instantiated in the configured build?"""
    if not f.cls or f.d.get('static'):
        return True
    if not hasattr(m, '_inst'):
        m._inst = set()
        for g in m.fns.values():
            for nd in g.nodes:
                if nd['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and nd.get('callee') in m.fns and g.cls != m.fns[nd['callee']].cls:
                    m._inst.add(m.fns[nd['callee']].cls)
    if not m.ctor_of.get(f.cls):
        return True
    return f.cls in m._inst or any(s in m._inst for s in m.subclasses(f.cls))
