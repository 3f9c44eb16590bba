"""Grammar checking results never depend on earlier checks: coherence and key discipline of the paragraph cache.

Rule 1 (value flow + effects): every option field whose user-configured value is read in the call-graph closure of the computation
that fills the paragraph cache (reads under a save/override/restore do not count) is tied to emptying the cache on every path of
the option-setting API that changes it.
Rule 2 (paths): the cache is emptied before it is refilled; emptying resets text and error list on every path; only the refill
computation adds entries.
Rule 3 (paths): a cached error is handed out only after the whole text was compared with the cached paragraph.
"""
from rules import common as C
from vlib.cachecoh import coherence
from vlib.fieldflow import FieldFlow
from vlib.model import AnalysisError
from vlib.sym import subterms
from vlib.effects import is_write_op, write_target
from collections import deque

RULE = 'deps(cached grammar computation) are tied to cache invalidation on every option-setting path; refill starts from an emptied cache; hits require whole-text equality'
ASSUMPTIONS = ['fields are identified by declaration (no aliasing of handle fields through unrelated types)',
               'std:: and libc functions do not read the handle',
               'back ends whose libraries are not installed here (VISL CG, lttoolbox) are not compiled and not analysed']

PROP = {
    'id': 'C02', 'title': 'Grammar results are independent of earlier checks and of the paragraph cache',
    'statement': 'For every sequence of option changes and grammar checks on a handle, the grammar errors reported for a text are those that a fresh handle with the same option values would report for that text. '
                 'A remembered result is reused only for exactly the same text, and only while no option that influences grammar checking has changed.',
    'quantifier': {'over': ['histories', 'inputs', 'configurations'], 'text': 'all interleavings of option setting and grammar checking on one handle, all texts and lengths'},
    'why_tests_cant': 'The tests check fixed texts right after setting options; staleness needs a particular (option, text, text, option) history that no finite sample of single checks reaches.',
    'anchors': {'files': ['libvoikko/src/grammar/GrammarChecker.cpp', 'libvoikko/src/grammar/GcCache.cpp', 'libvoikko/src/grammar/interface.cpp', 'libvoikko/src/setup/setup.cpp'],
                'mechanism': [{'name': 'GcCache::clear on option change', 'where': 'libvoikko/src/setup/setup.cpp'},
                              {'name': 'GrammarChecker::errorFromCache / paragraphToCache', 'where': 'libvoikko/src/grammar/GrammarChecker.cpp'}],
                'observe_at': ['voikkoNextGrammarErrorUcs4', 'voikkoNextGrammarErrorCstr', 'voikkoSetBooleanOption']}}


def parts(m):
    rec = C.find_record(m, 'GcCache')
    head = [f for f in rec['fields'] if 'CacheEntry' in f['t']]
    text = [f for f in rec['fields'] if 'wchar_t' in f['t'] or 'basic_string<wchar_t' in f['t'] or 'wstring' in f['t']]
    if not head or not text:
        raise AnalysisError('paragraph cache has no text or error list field')
    return rec, [f['q'] for f in head], [f['q'] for f in text]


def empties(f, nd, fields):
    """node resets one of the fields to empty/null"""
    if is_write_op(nd):
        p = f.path(write_target(nd))
        if p[0] == 'f' and p[2] in fields and nd['k'] == 'BinaryOperator' and f.isnull(nd['rhs']):
            return p[2]
    if nd.get('cn') in ('clear', 'reset') and nd.get('ext') and 'obj' in nd:
        p = f.path(nd['obj'])
        if p[0] == 'f' and p[2] in fields:
            return p[2]
    return None


def cleared_on_all_paths(m, f, fields, memo=None):
    """set of fields that are empty at every exit of f (last write on every path is the reset)"""
    memo = memo if memo is not None else {}
    if f.key in memo:
        return memo[f.key]
    memo[f.key] = frozenset()
    ins = {f.entry: frozenset()}
    wl = deque([f.entry])
    while wl:
        b = wl.popleft()
        S = ins[b]
        for e in f.blocks[b]['e']:
            if isinstance(e, dict):
                continue
            S = clear_step(m, f, f.nodes[e], S, fields, memo)
        for idx, s in enumerate(f.blocks[b]['s']):
            if s is None:
                continue
            S2 = S | null_edge(f, f.blocks[b], idx, fields)
            n = S2 if s not in ins else ins[s] & S2
            if s not in ins or n != ins[s]:
                ins[s] = n
                wl.append(s)
    r = ins.get(f.exit, frozenset())
    memo[f.key] = r
    return r


def null_edge(f, blk, idx, fields):
    """a branch on which a field is known to be null"""
    if 'cond' not in blk or len(blk['s']) != 2 or f.nodes[blk['term']]['k'] == 'SwitchStmt':
        return frozenset()
    t = idx == 0
    nd = f.nodes[f.strip(blk['cond'])]
    while nd['k'] == 'UnaryOperator' and nd['op'] == '!':
        t = not t
        nd = f.nodes[f.strip(nd['sub'])]
    p = None
    if nd['k'] == 'BinaryOperator' and nd['op'] in ('==', '!='):
        for a, b in (('lhs', 'rhs'), ('rhs', 'lhs')):
            if f.isnull(nd[b]):
                p = f.path(nd[a])
        if nd['op'] == '!=':
            t = not t
        if p and t and p[0] == 'f' and p[2] in fields:
            return frozenset((p[2],))
        return frozenset()
    p = f.path(nd['i'])
    if p[0] == 'f' and p[2] in fields and not t:
        return frozenset((p[2],))
    return frozenset()


def clear_step(m, f, nd, S, fields, memo):
    if is_write_op(nd):
        p = f.path(write_target(nd))
        if p[0] == 'f' and p[2] in fields:
            e = empties(f, nd, fields)
            if e:
                return S | {e}
            # pop-front loop: firstError = firstError->next keeps "may be non-empty"
            return S - {p[2]}
    e = empties(f, nd, fields)
    if e:
        return S | {e}
    if nd.get('callee'):
        ts = m.targets(nd)
        if ts:
            r = None
            for t in ts:
                x = cleared_on_all_paths(m, t, fields, memo)
                w = writes_any(m, t, fields)
                y = (S - w) | x
                r = y if r is None else r & y
            S = r
    return S


_w = {}


def writes_any(m, f, fields):
    key = (id(m), f.key, tuple(sorted(fields)))
    if key not in _w:
        _w[key] = frozenset()
        R, W, par = C.effects(m).transitive([f])
        _w[key] = frozenset(x for x in W if x in fields)
    return _w[key]


def run(m, rep, tier):
    rec, heads, texts = parts(m)
    fields = set(heads) | set(texts)
    opts = C.option_fields(m)
    eff = C.effects(m)
    checker = C.find_record(m, 'GrammarChecker')
    # the fill computation: functions outside the cache class that store the paragraph text
    fills = []
    for f in m.fns.values():
        if f.cls == rec['n'] or f.d.get('ctor'):
            continue
        for nd in f.nodes:
            if is_write_op(nd) and nd['k'] == 'BinaryOperator':
                p = f.path(write_target(nd))
                if p[0] == 'f' and p[2] in texts and not f.isnull(nd['rhs']):
                    fills.append((f, nd))
            elif nd['k'] in ('CXXOperatorCallExpr', 'CXXMemberCallExpr') and nd.get('ext') and nd.get('cn') in ('operator=', 'assign') and 'obj' in nd:
                p = f.path(nd['obj'])
                if p[0] == 'f' and p[2] in texts:
                    fills.append((f, nd))
    if not fills:
        # the store may live in a method of the cache class that takes the text
        for f in C.methods(m, rec):
            if f.d['ctor'] or f.d['dtor']:
                continue
            for nd in f.nodes:
                if is_write_op(nd) and nd['k'] == 'BinaryOperator':
                    p = f.path(write_target(nd))
                    if p[0] == 'f' and p[2] in texts and not f.isnull(nd['rhs']):
                        for g in m.fns.values():
                            for c in g.calls():
                                if c.get('callee') == f.key:
                                    fills.append((g, c))
    rep.need(len(fills), 1, 'stores of the cached paragraph')
    # root: the smallest API-side function containing both the text store and the analysis
    apis = [f for f in m.exported() if f.name.startswith('voikkoNextGrammarError')]
    reach_api = m.reach(apis)
    roots = []
    for f, nd in fills:
        g = f
        seen = set()
        # climb until the closure also reaches the code that adds entries
        while not adds_entries(m, g, rec, heads) and g.key not in seen:
            seen.add(g.key)
            cs = [m.fns[k] for k in reach_api for _, t in m.cg[k] if t.key == g.key]
            if not cs:
                break
            g = cs[0]
        roots.append(g)
    reach = m.reach(roots)
    rep.count('functions_in_cached_computation', len(reach))
    deps = {}
    for fld in sorted(opts):
        F = FieldFlow(m, fld)
        if not any(r.key in F.touch for r in roots):
            continue
        d = F.deps(roots)
        if d:
            deps[fld] = (d[0][0].key, d[0][1])
        else:
            rep.sample('overridden_or_unread', fld)
    # option state that lives outside the handle record (fields written by the option setters' closure)
    sreach = m.reach(C.option_setters(m))
    rep.count('option_dependencies', len(deps))
    rep.need(len(deps), 3, 'options read by grammar checking')
    memo = {}

    def ev_inv(f, nd):
        if nd.get('callee'):
            for t in m.targets(nd):
                if cleared_on_all_paths(m, t, set(heads) | set(texts), memo) >= set(texts):
                    return True
        e = empties(f, nd, set(texts))
        if e:
            return True
        # the whole checker is replaced
        if is_write_op(nd):
            p = f.path(write_target(nd))
            if p[0] == 'f' and p[2].split('::')[-1] == 'grammarChecker':
                return True
        return False
    coherence(m, rep, 'grammar', deps, ev_inv, lambda f, c, t: False, C.option_setters(m))

    # rule 2a: emptying resets both
    clr = [f for f in C.methods(m, rec) if not f.d['ctor'] and not f.d['dtor'] and any(empties(f, nd, fields) for nd in f.nodes)]
    used = set()
    for f in m.fns.values():
        for c in f.calls():
            for t in m.targets(c):
                if t in clr and f.cls != rec['n']:
                    used.add(t.key)
    for f in clr:
        if f.key not in used:
            continue
        got = cleared_on_all_paths(m, f, fields, memo)
        rep.count('clear_operations')
        for x in sorted(fields - got):
            rep.bad('partial-clear', f.where(), 'emptying the paragraph cache leaves %s set on some path, so stale errors can be reported for the next text' % x, '%s|%s' % (f.q, x))
    # rule 2b: refill starts from an emptied cache
    for f, st in fills:
        for g in [f]:
            bad = refill(m, g, fields, heads, memo, rec)
            rep.count('refill_functions')
            if bad is not None:
                rep.bad('refill-without-clear', g.where(bad), 'entries are added for a new text while entries of the previous one may still be cached', g.q)
    # rule 2c: only the fill computation adds entries
    for f in m.fns.values():
        if f.d.get('ctor') or f.cls == rec['n']:
            continue
        for nd in f.nodes:
            w = False
            if is_write_op(nd):
                p = f.path(write_target(nd))
                w = p[0] == 'f' and p[2] in fields and not f.isnull(nd.get('rhs', nd['i']))
            if w and f.key not in reach:
                rep.bad('foreign-write', f.where(nd), 'the paragraph cache is modified outside the computation that fills it', f.q)
            rep.count('cache_writes_checked', 1 if w else 0)
    # rule 3
    for f in m.fns.values():
        if any(t in f.d['ret'] for t in ('VoikkoGrammarError', 'CacheEntry')) and '*' in f.d['ret'] and \
                any(nd['k'] == 'MemberExpr' and nd.get('m') in heads for nd in f.nodes) and f.cls != rec['n']:
            lookup(m, rep, f, heads, texts)
    # rule 3b: the stored key is the whole text
    for f, st in fills:
        stored_key(m, rep, f, texts)
    # rule 4: no other state connects one check with a later one
    C.fold(m, rep, ('C03', 'C04', 'C05'), apis, tier)


def adds_entries(m, f, rec, heads):
    par = m.reach([f])
    for k in par:
        g = m.fns[k]
        for nd in g.nodes:
            if is_write_op(nd):
                p = g.path(write_target(nd))
                if p[0] == 'f' and p[2] in heads and not g.isnull(nd.get('rhs', nd['i'])):
                    return True
    return False


def refill(m, f, fields, heads, memo, rec):
    """first node that may add entries or store the text while the cache is not known to be empty"""
    adders = set()
    for k, g in m.fns.items():
        if g.cls == rec['n'] and not g.d['ctor'] and not g.d['dtor']:
            if any(is_write_op(nd) and g.path(write_target(nd))[0] == 'f' and g.path(write_target(nd))[2] in heads and not g.isnull(nd.get('rhs', nd['i'])) for nd in g.nodes) \
                    and not cleared_on_all_paths(m, g, fields, memo) >= set(heads):
                adders.add(k)
    may_add = {k for k in m.fns if set(m.reach([k])) & adders} if adders else set()
    ins = {f.entry: frozenset()}
    wl = deque([f.entry])
    bad = None
    while wl:
        b = wl.popleft()
        S = ins[b]
        for e in f.blocks[b]['e']:
            if isinstance(e, dict):
                continue
            nd = f.nodes[e]
            if nd.get('callee') and any(t.key in may_add for t in m.targets(nd)):
                if not S >= set(heads):
                    return nd
                # after adding, entries belong to the new text
                continue
            S = clear_step(m, f, nd, S, fields, memo)
        for idx, s in enumerate(f.blocks[b]['s']):
            if s is None:
                continue
            S2 = S | null_edge(f, f.blocks[b], idx, fields)
            n = S2 if s not in ins else ins[s] & S2
            if s not in ins or n != ins[s]:
                ins[s] = n
                wl.append(s)
    return bad


EXACT = {'operator==', 'operator!=', 'compare', 'equal'}
BOUNDED = {'wmemcmp', 'memcmp'}
TONUL = {'wcscmp', 'wcsncmp', 'strcmp', 'strncmp'}     # stop at the first NUL, which a text given with its length may contain


def compare_helper(m, f, c, texts):
    """('exact'|'bounded', sense) when call node c compares the cached text; sense True: nonzero/true means equal"""
    def mentions(i):
        return any(x['k'] == 'MemberExpr' and x.get('m') in texts for x in f.walk(i))
    args = list(c.get('args', ())) + ([c['obj']] if 'obj' in c else [])
    if not any(mentions(a) for a in args):
        return None
    n = c.get('cn')
    if n in EXACT and c.get('ext', False) or n in EXACT and not m.targets(c):
        return ('exact', n in ('operator==', 'equal'))
    if n in BOUNDED:
        return ('partly' if short_compare(m, f, c) else 'bounded', False)
    if n in TONUL:
        return ('nul', False)
    return None


def short_compare(m, f, c):
    """memcmp given fewer bytes than the text has"""
    from rules.C01 import evali
    if c.get('cn') not in ('memcmp', 'wmemcmp') or len(c['args']) != 3:
        return False
    u = 4 if c['cn'] == 'wmemcmp' else 1
    t = C.sym(m)(f, c['args'][2])
    ps = {x for x in subterms(t) if x[0] in ('p', 'var')}
    if len(ps) != 1 or next(iter(ps))[0] != 'p':
        return False
    try:
        return any(evali(m, t, {'p%d' % next(iter(ps))[1]: n})[1] * u < 4 * n for n in (1, 2, 10, 100, 300, 5000))
    except (KeyError, ValueError, IndexError):
        return False


def lookup(m, rep, f, heads, texts):
    """bits: e exact comparison passed, b bounded comparison passed, l length compared equal"""
    rep.count('lookup_functions')
    def cond_bits(i, truth):
        i = f.strip(i)
        nd = f.nodes[i]
        if nd['k'] == 'UnaryOperator' and nd['op'] == '!':
            return cond_bits(nd['sub'], not truth)
        if nd['k'] == 'BinaryOperator' and nd['op'] in ('&&', '||'):
            if (nd['op'] == '&&') == truth:
                return cond_bits(nd['lhs'], truth) | cond_bits(nd['rhs'], truth)
            return frozenset()
        if nd['k'] == 'BinaryOperator' and nd['op'] in ('==', '!='):
            eq = (nd['op'] == '==') == truth
            for a, b in (('lhs', 'rhs'), ('rhs', 'lhs')):
                c = f.nodes[f.strip(nd[a])]
                if c.get('callee') and f.const(nd[b]) == 0:
                    h = compare_helper(m, f, c, texts)
                    if h and eq != h[1]:
                        return frozenset(h[0][0])
                    if h:
                        return frozenset()
            # length equality: one side derives from the cache, other from a parameter; or the cached text ends where the given one does
            if eq:
                sides = [any(x['k'] == 'MemberExpr' and x.get('mk') == 'field' for x in f.walk(nd[s])) for s in ('lhs', 'rhs')]
                if any(sides) and not f.isnull(nd['lhs']) and not f.isnull(nd['rhs']):
                    return frozenset('l')
                for s in ('lhs', 'rhs'):
                    p = f.path(nd[s])
                    if p[0] == 'e' and p[1][0] == 'f' and p[1][2] in texts:
                        return frozenset('l')
            return frozenset()
        if nd.get('callee'):
            h = compare_helper(m, f, nd, texts)
            if h:
                return frozenset(h[0][0]) if truth == h[1] else frozenset()
            for t in m.targets(nd):
                # a predicate helper: its result is a conjunction over the cached text
                if t.d['ret'] == 'bool' and any(x['k'] == 'MemberExpr' and x.get('m') in texts for x in t.nodes) or any(
                        any(x['k'] == 'MemberExpr' and x.get('m') in texts for x in f.walk(a)) for a in nd.get('args', ())):
                    return frozenset('?')
        v = f.var(i)
        if v is not None:
            inits = [d['init'] for d0 in f.nodes if d0['k'] == 'DeclStmt' for d in d0['decls'] if d.get('v') == v and 'init' in d]
            if len(inits) == 1:
                return cond_bits(inits[0], truth)
        p = f.path(i)
        if p[0] == 'e' and p[1][0] == 'f' and p[1][2] in texts and not truth:
            return frozenset('l')
        return frozenset()
    ins = {f.entry: frozenset()}
    wl = deque([f.entry])
    while wl:
        b = wl.popleft()
        blk = f.blocks[b]
        S = ins[b]
        for idx, s in enumerate(blk['s']):
            if s is None:
                continue
            S2 = S
            if 'cond' in blk and len(blk['s']) == 2 and f.nodes[blk['term']]['k'] != 'SwitchStmt':
                S2 = S | cond_bits(blk['cond'], idx == 0)
                term = f.nodes[blk['term']]
                if idx == 1 and term['k'] in ('ForStmt', 'WhileStmt') and elementwise(f, term, texts):
                    S2 = S2 | {'b'}
            n = S2 if s not in ins else ins[s] & S2
            if s not in ins or n != ins[s]:
                ins[s] = n
                wl.append(s)
    for b, S in ins.items():
        for e in f.blocks[b]['e']:
            if isinstance(e, dict):
                continue
            nd = f.nodes[e]
            if nd['k'] == 'ReturnStmt' and 'val' in nd and not f.isnull(nd['val']):
                rep.count('hit_returns')
                if 'e' in S or '?' in S or ('b' in S and 'l' in S):
                    continue
                rep.bad('hit-without-comparison', f.where(nd),
                        'a cached result is returned on a path on which the given text was %s' % ('compared only up to a length' if 'b' in S else 'compared only up to its first NUL' if 'n' in S else 'compared only in part' if 'p' in S else 'not compared with the cached paragraph'), f.q)


def elementwise(f, loop, texts):
    for x in f.walk(loop['i']):
        if x['k'] == 'BinaryOperator' and x['op'] in ('!=', '=='):
            for s in ('lhs', 'rhs'):
                p = f.path(x[s])
                if p[0] == 'e' and p[1][0] == 'f' and p[1][2] in texts and p[2] is None:
                    return True
    return False


def stored_key(m, rep, f, texts):
    for nd in f.nodes:
        if nd.get('cn') in ('memcpy', 'wmemcpy', 'wcsncpy') and nd.get('args'):
            p = f.path(nd['args'][0])
            if p[0] == 'f' and p[2] in texts:
                rep.count('key_copies')
                n = nd['args'][2]
                vs = {x['v'] for x in f.walk(n) if x['k'] == 'DeclRefExpr' and x.get('dk') == 'var'}
                plain = True
                for x in f.walk(n):
                    if x['k'] == 'BinaryOperator' and x['op'] in ('-', '/', '>>', '&', '%') and not x.get('ev'):
                        plain = False
                if not any(v in f.params for v in vs) and vs and not any('init' in d for v in vs for d0 in f.nodes if d0['k'] == 'DeclStmt' for d in d0['decls'] if d.get('v') == v):
                    plain = False
                if not plain:
                    rep.bad('partial-key', f.where(nd), 'the cached paragraph is not the whole text', f.q)
