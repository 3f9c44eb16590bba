"""A dictionary search does not see what earlier searches on the same handle left behind.

The transducer searches keep their state in configuration objects that live as long as the handle. Rules (dataflow over the functions
that take a configuration): (1) everything the search reads before writing is set anew by `prepare` on every path: counters, bottom
cells of the stacks, and randomly indexed arrays as a whole; (2) every step back in the search undoes exactly what the step forward
did: the same counters, under the same conditions, with the overwritten flag values saved before and put back after; (3) a search is
continued only after it was prepared, and its output buffer is read only after it was filled; (4) any other member of a long-lived
object that an operation modifies is a covered cache, is restored, or is a buffer that is filled before it is read.
"""
import re
from collections import deque
from rules import common as C
from rules import C04, C05, C06
from vlib.effects import is_write_op, write_target
from vlib.facts import Facts
from vlib.flow import dominators, positions
from vlib.fieldflow import FieldFlow
from vlib.model import AnalysisError
from vlib.sym import Sym, subterms

RULE = 'search state is re-initialised by prepare, every pop mirrors its push, buffers are filled before they are read, and no other state survives an operation'
ASSUMPTIONS = ['the external hfstospell objects keep no state that changes results', 'the caches of spelling and grammar results are the subject of C01 and C02']

PROP = {
    'id': 'C03', 'title': 'Searches and analyses do not depend on what was processed before',
    'statement': 'The result of every dictionary search (spelling, analysis, suggestion, hyphenation, grammar autocorrect lookup) on a handle is the one that a fresh handle would give: the search state kept with the handle '
                 '(stacks, depths, flag diacritic values, buffers) is completely re-initialised for each new input, also when an earlier search was abandoned half-way, and each step back within a search undoes exactly what '
                 'the step forward did. No member of a long-lived object carries information from one operation to the next, except the documented result caches.',
    'quantifier': {'over': ['histories', 'inputs'], 'text': 'all sequences of operations on a handle, all inputs, all dictionaries'},
    'why_tests_cant': 'Each test checks few words on a fresh handle; left-over state only shows when a search was abandoned in a particular state and a later word happens to read it.',
    'anchors': {'files': ['libvoikko/src/fst/UnweightedTransducer.cpp', 'libvoikko/src/fst/WeightedTransducer.cpp', 'libvoikko/src/fst/Configuration.cpp', 'libvoikko/src/morphology/FinnishVfstAnalyzer.cpp',
                          'libvoikko/src/spellchecker/VfstSpeller.cpp', 'libvoikko/src/spellchecker/VfstSuggestion.cpp', 'libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp'],
                'mechanism': [{'name': 'prepare / next / backtrackToOutputDepth', 'where': 'libvoikko/src/fst'}],
                'observe_at': ['voikkoSpellCstr', 'voikkoAnalyzeWordCstr', 'voikkoSuggestCstr', 'voikkoNextGrammarErrorCstr']}}

FILL = {'memset': 2, 'wmemset': None, 'fill': None, 'fill_n': None}
SIZES = {'unsigned short': 2, 'unsigned int': 4, 'short': 2, 'int': 4, 'wchar_t': 4, 'char': 1, 'unsigned char': 1, 'unsigned long': 8, 'uint16_t': 2, 'uint32_t': 4}


def erase(t):
    """a term without the objects its fields belong to"""
    if t[0] == 'fld':
        return ('m', t[2].split('::')[-1])
    return t


def short(m):
    return m.split('::')[-1]


class Search:
    """one configuration record with its prepare and search functions"""

    def __init__(self, m, rec, prepares, entries):
        self.m, self.rec, self.prepares = m, rec, prepares
        self.fields = {f['q']: f for f in rec['fields']}
        self.ptr = {q for q, f in self.fields.items() if '*' in f['t'] or '[' in f['t'] or 'vector' in f['t']}
        self.scal = {q for q, f in self.fields.items() if q not in self.ptr and not f['t'].startswith('const ')}
        par = m.reach(entries)
        self.search = [m.fns[k] for k in par if any(self.is_cfg(m.fns[k], v) for v in m.fns[k].params)]
        self.sym = Sym(m)
        self.facts = Facts(m, self.sym, C.effects(m))

    def is_cfg(self, f, v):
        return C.strip_ptr(f.vars[v]['t']) == self.rec['n']

    # -- array accesses, aliases resolved: [(node, 'r'/'w'/'all', field, index term, size term)]
    def accesses(self, f):
        if not hasattr(self, '_acc'):
            self._acc = {}
        if f.key in self._acc:
            return self._acc[f.key]
        out = []
        wt = {}
        for nd in f.nodes:
            if is_write_op(nd):
                wt[f.strip(write_target(nd))] = nd
        for nd in f.nodes:
            if nd['k'] == 'ArraySubscriptExpr' or (nd['k'] == 'UnaryOperator' and nd['op'] == '*') or (nd['k'] == 'CXXOperatorCallExpr' and nd.get('op') == '[]'):
                fld, idx = self.elem(f, nd)
                if fld is None:
                    continue
                if nd['i'] in wt:
                    w = wt[nd['i']]
                    if not (w['k'] == 'BinaryOperator' and w['op'] == '='):
                        out.append((w, 'r', fld, idx, None))
                    out.append((w, 'w', fld, idx, None))
                else:
                    out.append((nd, 'r', fld, idx, None))
            elif nd.get('callee') and not self.m.targets(nd) and nd.get('cn') in ('memset', 'wmemset', 'memcpy', 'wmemcpy', 'memmove', 'fill', 'fill_n', 'copy', 'copy_n', 'wcsncpy'):
                args = nd.get('args', ())
                dst = 0 if nd['cn'] not in ('copy', 'copy_n') else len(args) - 1
                fld, idx = self.ptr_term(f, args[dst])
                if fld:
                    out.append((nd, 'all' if nd['cn'] in FILL else 'w', fld, idx, self.byte_size(f, nd, fld)))
                for k in range(len(args)):
                    if k != dst and nd['cn'] not in FILL:
                        fld, idx = self.ptr_term(f, args[k])
                        if fld:
                            out.append((nd, 'r', fld, idx, None))
        self._acc[f.key] = out
        return out

    def byte_size(self, f, nd, fld):
        """number of bytes a fill or copy call covers, as a term"""
        from vlib.sym import norm
        args, cn = nd.get('args', ()), nd['cn']
        if len(args) < 3:
            return None
        if cn in ('memset', 'memcpy', 'memmove'):
            return self.sym(f, args[2])
        es = ('c', SIZES.get(C.strip_ptr(self.fields[fld]['t']).strip(), 1))
        if cn in ('wmemset', 'wmemcpy', 'wcsncpy'):
            return norm('*', self.sym(f, args[2]), es)
        if cn in ('fill_n', 'copy_n'):
            return norm('*', self.sym(f, args[1]), es)
        a, b = self.sym(f, args[0]), self.sym(f, args[1])          # fill, copy: [a, b)
        if b[0] == '+':
            rest = list(b[1])
            for x in (a[1] if a[0] == '+' else (a,)):
                if x in rest:
                    rest.remove(x)
                else:
                    return None
            if rest:
                return norm('*', rest[0] if len(rest) == 1 else ('+', tuple(rest)), es)
        return None

    def split(self, t, extra=None):
        """(array field, offset term) of a pointer term"""
        if t[0] == 'fld' and t[2] in self.ptr:
            return t[2], ('c', 0)
        if t[0] == '+':
            ps = [x for x in t[1] if x[0] == 'fld' and x[2] in self.ptr]
            if len(ps) == 1:
                rest = [x for x in t[1] if x is not ps[0]]
                return ps[0][2], rest[0] if len(rest) == 1 else ('+', tuple(rest))
        return None, None

    def ptr_term(self, f, i):
        return self.split(self.sym(f, i))

    def elem(self, f, nd):
        from vlib.sym import norm
        if nd['k'] == 'CXXOperatorCallExpr':
            b, x = self.sym(f, nd['obj']), self.sym(f, nd['args'][0] if len(nd['args']) == 1 else nd['args'][1])
        elif nd['k'] == 'ArraySubscriptExpr':
            b, x = self.sym(f, nd['base']), self.sym(f, nd['idx'])
        else:
            b, x = self.sym(f, nd['sub']), ('c', 0)
        fld, off = self.split(b)
        if fld is None:
            return None, None
        return fld, norm('+', off, x)

    def depth_fields(self):
        """counters of the configuration that the search counts up and down"""
        up, down = {}, {}
        for f in self.search:
            for nd in f.nodes:
                d = self.delta(f, nd)
                if d:
                    (up if d[1] > 0 else down).setdefault(d[0], []).append((f, nd))
        return {q for q in up if q in down}, up, down

    def delta(self, f, nd):
        """(field, +1/-1) if nd moves a counter of the configuration"""
        if not is_write_op(nd):
            return None
        p = f.path(write_target(nd))
        if p[0] != 'f' or p[2] not in self.scal:
            return None
        if nd['k'] == 'UnaryOperator':
            return p[2], 1 if nd['op'] == '++' else -1
        if nd['k'] == 'CompoundAssignOperator' and nd['op'] in ('+=', '-='):
            return p[2], 1 if nd['op'] == '+=' else -1
        if nd['k'] == 'BinaryOperator' and nd['op'] == '=':
            t = self.sym(f, nd['rhs'])
            if t[0] == '+' and any(x[0] == 'fld' and x[2] == p[2] for x in t[1]):
                c = [x[1] for x in t[1] if x[0] == 'c']
                if c:
                    return p[2], 1 if c[0] > 0 else -1
        return None

    # -- facts at a site, in terms of the transition and the transducer only
    def site_facts(self, f, node, seen=(), below=frozenset()):
        own = self.facts.at(f, node) | below
        res = None
        if f.key not in seen:
            for g in self.search:
                for c in g.calls():
                    if c.get('callee') == f.key and g.key != f.key:
                        env = {('p', k): self.sym(g, a) for k, a in enumerate(c.get('args', ()))}
                        x = self.site_facts(g, c['i'], seen + (f.key,), frozenset((subst(a, env), op, subst(b, env)) for a, op, b in own))
                        res = x if res is None else res & x
        return self.clean(own) if res is None else res

    def clean(self, S):
        out = set()
        for a, op, b in S:
            a, b = erase(a), erase(b)
            ok = True
            for t in (a, b):
                if t[0] == 'm' and not any(t[1] == short(q) for q in self.fields):
                    continue
                if t == ('c', 0):
                    continue
                ok = False
            if ok and (a[0] == 'm' or b[0] == 'm'):
                if op in ('<', '<=') and a == ('c', 0):
                    op = '!=' if op == '<' else None     # unsigned: 0 < x
                if op:
                    from vlib.facts import canon
                    out.add(canon(a, op, b))
        # x >= first and first > 0 make x != 0 redundant
        ge = {b for a, op, b in out if op in ('<=', '<') and a[0] == 'm' and b[0] == 'm'}
        return frozenset(x for x in out if not (x[1] == '!=' and (x[0] in ge or x[2] in ge)))


def subst(t, env):
    if t in env:
        return env[t]
    if isinstance(t, tuple):
        return tuple(subst(x, env) if isinstance(x, tuple) else x for x in t)
    return t


def searches(m):
    """configuration records: pointer parameter shared by a class's `prepare` and other methods"""
    out = []
    for n, rec in sorted(m.records.items()):
        ms = C.methods(m, rec)
        preps = [f for f in ms if f.name == 'prepare']
        for p in preps:
            for v in p.params:
                t = p.vars[v]['t']
                r = C.strip_ptr(t)
                if ('*' in t or t.endswith('&')) and not t.startswith('const ') and r in m.records and r.startswith('libvoikko'):
                    inprep = set(m.reach(preps))
                    ent = [f for f in ms if f.key not in inprep and any(C.strip_ptr(f.vars[x]['t']) == r for x in f.params)]
                    out.append((n, Search(m, m.records[r], [p], ent), ent))
    return out


# ---- (1) what prepare sets
def must_set(m, s, f, rep, depth=0):
    """scalars / bottom cells definitely set on every path of f; ({fields}, {arrays: 'cell'|'all'})"""
    if not hasattr(s, '_ms'):
        s._ms = {}
    if f.key in s._ms:
        return s._ms[f.key]
    s._ms[f.key] = frozenset()
    acc = {}
    for nd, kind, fld, idx, size in s.accesses(f):
        acc.setdefault(nd['i'], []).append((kind, fld, idx, size))
    loops = loop_nodes(f)

    def gen(e):
        if isinstance(e, dict):
            return ()
        nd = f.nodes[e]
        g = []
        if is_write_op(nd):
            p = f.path(write_target(nd))
            if p[0] == 'f' and p[2] in s.scal and nd['k'] == 'BinaryOperator' and nd['op'] == '=':
                g.append(('S', p[2], nd))
        for kind, fld, idx, size in acc.get(e, ()):
            if kind == 'all':
                if whole(s, fld, idx, size):
                    g.append(('A', fld, nd))
            elif kind == 'w':
                if idx == ('c', 0):
                    g.append(('C', fld, nd))
        if nd.get('callee'):
            for t in m.targets(nd):
                if any(s.is_cfg(t, v) for v in t.params) or t.cls == s.rec['n']:
                    g += [(k, q, nd) for k, q in must_set(m, s, t, rep, depth + 1)]
        return g

    ins = {f.entry: frozenset()}
    wl = deque([f.entry])
    while wl:
        b = wl.popleft()
        S = ins[b]
        blk = f.blocks[b]
        for e in blk['e']:
            for k, q, nd in gen(e):
                if k == 'S' and nd['k'] == 'BinaryOperator':
                    used = {x[2] for x in subterms(s.sym(f, nd['rhs'])) if x[0] == 'fld' and x[2] in s.scal}
                    if not all(('S', u) in S for u in used):
                        continue
                S = S | {(k, q)}
        for idx, x in enumerate(blk['s']):
            if x is None:
                continue
            S2 = S
            for a, op, c in s.facts.edge(f, blk, idx):
                # "no flag diacritics" / "array absent": nothing to reset on this edge
                if op == '==' and ('c', 0) in (a, c):
                    t = c if a == ('c', 0) else a
                    S2 = S2 | {('A', q) for q in s.ptr if reset_guard(m, s, f, q, t)}
                    if t[0] == 'fld' and t[2] not in s.fields:
                        S2 = S2 | {('S', q) for q in s.scal if guarded_use(s, q, erase(t))}
            n = S2 if x not in ins else ins[x] & S2
            if x not in ins or n != ins[x]:
                ins[x] = n
                wl.append(x)
    r = ins.get(f.exit, frozenset())
    # element loops: a loop that writes consecutive elements of an array
    r = set(r)
    for nd, kind, fld, idx, size in s.accesses(f):
        if kind == 'w' and nd['i'] in loops and idx != ('c', 0):
            r.add(('L', fld))
    s._ms[f.key] = frozenset(r)
    return s._ms[f.key]


def reset_guard(m, s, f, q, t):
    """is `t == 0` a reason why array q need not be reset? (its pointer is null, or its element count is zero)"""
    if t[0] == 'fld' and t[2] == q:
        return True
    for nd, kind, fld, idx, size in s.accesses(f):
        if kind == 'all' and fld == q and size is not None:
            if t in set(subterms(size)):
                return True
    return False


def guarded_use(s, q, t):
    """every use of counter q in the search happens where t is known to be non-zero"""
    from vlib.facts import canon
    if not hasattr(s, '_gu'):
        s._gu = {}
    if (q, t) not in s._gu:
        want = canon(('c', 0), '!=', t)
        us = [(f, nd) for f in s.search for nd in f.nodes if nd['k'] == 'MemberExpr' and nd.get('m') == q]
        s._gu[q, t] = bool(us) and all(want in s.site_facts(f, nd['i']) for f, nd in us)
    return s._gu[q, t]


def whole(s, fld, idx, size):
    if idx != ('c', 0) or size is None:
        return idx == ('c', 0)
    es = SIZES.get(C.strip_ptr(s.fields[fld]['t']).strip(), None)
    if size[0] == '*' and es:
        c = [x[1] for x in size[1] if x[0] == 'c']
        return bool(c) and c[0] >= es
    if size[0] == 'c':
        return False
    return es == 1


def loop_nodes(f):
    out = set()
    for nd in f.nodes:
        if nd['k'] in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt') and 'body' in nd:
            out |= {x['i'] for x in f.walk(nd['i'])}
    return out


def check_prepare(m, s, rep, cls):
    prep = s.prepares[0]
    setp = must_set(m, s, prep, rep)
    depth, up, down = s.depth_fields()
    # scalars read by the search
    reads = {}
    for f in s.search:
        for nd in f.nodes:
            if nd['k'] == 'MemberExpr' and nd.get('m') in s.scal:
                reads.setdefault(nd['m'], (f, nd))
    for q in sorted(reads):
        rep.count('search_counters')
        if ('S', q) not in setp:
            rep.bad('not-reset', prep.where(), '%s does not set %s on every path, but %s continues with its value: a new search starts from where an earlier one stopped' % (prep.q, short(q), reads[q][0].q), '%s|%s' % (prep.q, short(q)))
    # arrays
    for q in sorted(s.ptr):
        need_cell, need_all, ex = False, False, None
        for f in s.search:
            popped = popped_states(s, f, depth)
            for nd, kind, fld, idx, size in s.accesses(f):
                if fld != q or kind != 'r':
                    continue
                k = index_kind(s, f, nd, idx, depth, popped)
                rep.count('search_array_reads')
                if k == 'cell':
                    need_cell, ex = True, ex or (f, nd)
                elif k == 'random':
                    need_all, ex = True, (f, nd)
                elif k == 'level':
                    if not level_immutable(m, s, q, rep) and ('A', q) not in setp:
                        rep.bad('not-reset', f.where(nd), 'the first row of %s is modified by searches but not reset by %s' % (short(q), prep.q), '%s|%s|row' % (prep.q, short(q)))
        if need_all and ('A', q) not in setp and ('L', q) not in setp:
            rep.bad('not-reset', prep.where(), '%s does not reset %s as a whole, but %s reads arbitrary elements of it: values left by an abandoned search are seen by the next one' % (prep.q, short(q), ex[0].q), '%s|%s' % (prep.q, short(q)))
        elif need_cell and not ({('C', q), ('A', q), ('L', q)} & setp):
            rep.bad('not-reset', prep.where(), '%s does not set the first element of %s on every path, but %s reads it before writing' % (prep.q, short(q), ex[0].q), '%s|%s' % (prep.q, short(q)))
        if need_all or need_cell:
            rep.sample('reset_by_prepare', '%s: %s' % (short(s.rec['n']), short(q)), 20)
    return depth, up, down


def index_kind(s, f, nd, idx, depth, popped):
    ds = [x for x in subterms(idx) if x[0] == 'fld' and x[2] in s.scal]
    if any(x[0] == '*' and any(y[0] == 'fld' and y[2] in s.scal for y in x[1]) for x in subterms(idx)):
        return 'level'
    if idx[0] == 'fld' and idx[2] in s.scal or idx[0] == '+' and ds and all(x[0] in ('fld', 'c') for x in idx[1]):
        if any(x[2] in popped.get(nd['i'], ()) for x in ds):
            return 'below'
        return 'cell'
    # bounded by a depth
    for a, op, b in s.facts.at(f, nd['i']):
        if op == '<' and a == idx and b[0] == 'fld' and b[2] in s.scal:
            return 'below'
    if idx[0] == 'var':
        # loops "for (i = depth; i-- > 0;)" and the like: any comparison with a counter bounds the index
        for x in f.nodes:
            if x['k'] == 'BinaryOperator' and x['op'] in ('<', '<=', '>', '>=', '!='):
                a, b = s.sym(f, x['lhs']), s.sym(f, x['rhs'])
                if idx in (a, b) and any(y[0] == 'fld' and y[2] in s.scal for y in subterms((a, b) if False else ('+', (a, b)))):
                    return 'below'
    return 'random'


def popped_states(s, f, depth):
    """{node: counters that were certainly counted down since function entry without being counted up again}"""
    ins = {f.entry: frozenset()}
    wl = deque([f.entry])
    res = {}

    def step(e, S, rec):
        if isinstance(e, dict):
            return S
        if rec is not None:
            rec[e] = S if e not in rec else rec[e] & S
        d = s.delta(f, f.nodes[e])
        if d:
            return S | {d[0]} if d[1] < 0 else S - {d[0]}
        return S
    while wl:
        b = wl.popleft()
        S = ins[b]
        for e in f.blocks[b]['e']:
            S = step(e, S, None)
        for x in f.blocks[b]['s']:
            if x is None:
                continue
            n = S if x not in ins else ins[x] & S
            if x not in ins or n != ins[x]:
                ins[x] = n
                wl.append(x)
    for b, S in ins.items():
        for e in f.blocks[b]['e']:
            S = step(e, S, res)
    # a helper that is called right after the counter went down
    if f not in s.search[:0]:
        for v in f.params:
            pass
    return res


def level_immutable(m, s, q, rep):
    """row 0 of a depth-indexed table is never written by the search: each write goes one row further than the current depth"""
    for f in s.search:
        for nd, kind, fld, idx, size in s.accesses(f):
            if fld == q and kind in ('w', 'all'):
                prods = [x for x in (idx[1] if idx[0] == '+' else (idx,)) if x[0] == '*' and any(y[0] == 'fld' and y[2] in s.scal for y in x[1])]
                if not prods:
                    return False
                strides = [tuple(y for y in p[1] if not (y[0] == 'fld' and y[2] in s.scal)) for p in prods]
                terms = idx[1] if idx[0] == '+' else (idx,)
                if not any(len(st) == 1 and st[0] in terms for st in strides):
                    if not any(('+' == y[0]) for p in prods for y in p[1]):
                        return False
    # initialised when constructed
    for f in m.fns.values():
        if f.d.get('ctor') and f.cls == s.rec['n']:
            s2 = s
            for nd, kind, fld, idx, size in s2.accesses(f):
                if fld == q and kind == 'all':
                    return True
            if any(nd['k'] in ('ForStmt', 'WhileStmt') for nd in f.nodes):
                return True
            for ini in f.d.get('inits', []):
                if ini.get('m') == q and any(x['k'] == 'CXXNewExpr' and 'init' in x for x in f.walk(ini['e'])):
                    return True
    return False


# ---- (2) push and pop mirror each other
def check_balance(m, s, rep, depth, up, down):
    if not depth:
        return
    par = {}
    touch = {}
    for f in s.search:
        inc, dec = set(), set()
        for k in m.reach([f]):
            g = m.fns[k]
            if g not in s.search:
                continue
            for nd in g.nodes:
                d = s.delta(g, nd)
                if d:
                    (inc if d[1] > 0 else dec).add(d[0])
        touch[f.key] = (inc, dec)
    for f in s.search:
        owndec = {s.delta(f, nd)[0] for nd in f.nodes if s.delta(f, nd) and s.delta(f, nd)[1] < 0}
        inc, dec = touch[f.key]
        called = any(c.get('callee') == f.key for g in s.search if g is not f for c in g.calls())
        if dec and not called:
            rep.count('backtracking_functions')
            for q in sorted(depth - dec):
                rep.bad('pop-incomplete', f.where(), '%s steps back in the search without ever counting %s down, although stepping forward counts it up' % (f.q, short(q)), '%s|%s' % (f.q, short(q)))
    for q in sorted(depth):
        push = None
        for f, nd in up[q]:
            x = s.site_facts(f, nd['i'])
            push = x if push is None else push & x
        for f, nd in down[q]:
            pop = s.site_facts(f, nd['i'])
            rep.count('push_pop_pairs')
            if pop != push:
                rep.bad('pop-mismatch', f.where(nd), '%s is counted down under the condition {%s} but counted up under {%s}: stepping back does not undo the step forward' % (short(q), show(pop), show(push)), '%s|%s|cond' % (f.q, short(q)))
            # a step back that happens only for some values of the counter itself
            for a, op, b in s.facts.at(f, nd['i']):
                ts = [t for t in (a, b) if t[0] == 'fld' and t[2] in s.scal]
                if len(ts) == 2 and op in ('<', '<=', '==', '!=') and any(t[2] == q for t in ts) and guards(f, nd['i'], ts, s):
                    rep.bad('pop-mismatch', f.where(nd), '%s is counted down only if %s %s %s: the step forward that reached the limit is not undone' % (short(q), short(a[2]), op, short(b[2])), '%s|%s|limit' % (f.q, short(q)))
    check_levels(m, s, rep, depth, up)
    # randomly indexed arrays that a push overwrites must be saved and restored
    for f in s.search:
        for nd, kind, fld, idx, size in s.accesses(f):
            if kind != 'w' or index_kind(s, f, nd, idx, depth, popped_states(s, f, depth)) != 'random':
                continue
            rhs = s.sym(f, nd['rhs']) if nd['k'] == 'BinaryOperator' else ('x',)
            undo = [x for x in subterms(rhs) if x[0] == '[]' and x[1][0] == 'fld' and x[1][2] in s.ptr and x[1][2] != fld]
            if undo:
                rep.count('restores')
                check_saved(m, s, rep, f, nd, fld, idx, undo[0], depth)
            else:
                # a push: some pop must restore this array
                rep.count('flag_updates')
                rest = [1 for g in s.search for n2, k2, f2, i2, z2 in s.accesses(g) if k2 == 'w' and f2 == fld and n2['k'] == 'BinaryOperator'
                        and any(x[0] == '[]' and x[1][0] == 'fld' and x[1][2] in s.ptr and x[1][2] != fld for x in subterms(s.sym(g, n2['rhs'])))]
                if not rest:
                    rep.bad('not-restored', f.where(nd), '%s is overwritten while stepping forward but no step back restores it' % short(fld), '%s|%s' % (f.q, short(fld)))


def guards(f, i, ts, s):
    """is the fact about counters ts established by an if around node i (and not by the enclosing search loop)?"""
    x = f.parent.get(i)
    while x is not None:
        nd = f.nodes[x]
        if nd['k'] == 'IfStmt' and 'cond' in nd:
            ms = {y.get('m') for y in f.walk(nd['cond']) if y['k'] == 'MemberExpr'}
            if all(t[2] in ms for t in ts):
                return True
        x = f.parent.get(x)
    return False


def check_levels(m, s, rep, depth, up):
    """tables with one row per level: the new row is a complete copy of the current one before the level is counted up"""
    tabs = {}
    for f in s.search:
        for nd, kind, fld, idx, size in s.accesses(f):
            for x in subterms(idx):
                if x[0] == '*':
                    cs = [y for y in x[1] if y[0] == 'fld' and y[2] in depth]
                    if len(cs) == 1:
                        tabs.setdefault((fld, cs[0][2]), set()).add(tuple(y for y in x[1] if y is not cs[0]))
    for (fld, d), strides in sorted(tabs.items(), key=repr):
        rep.count('level_tables')
        es = SIZES.get(C.strip_ptr(s.fields[fld]['t']).strip())
        for g in s.search:
            incs = [x for x in g.nodes if s.delta(g, x) == (d, 1)]
            if not incs:
                continue
            loops = [x for x in g.nodes if x['k'] in ('ForStmt', 'WhileStmt', 'DoStmt') and 'body' in x]
            by = set()
            opaque = False
            for nd, kind, f2, idx, size in s.accesses(g):
                if f2 != fld or kind != 'w':
                    continue
                if nd.get('callee'):
                    by.add(nd['i'])
                    if size is not None and es and nd['cn'] in ('memcpy', 'memmove', 'memset'):
                        st = [x for x in strides if x and all(y in (size[1] if size[0] == '*' else (size,)) for y in x)]
                        c = [y[1] for y in (size[1] if size[0] == '*' else (size,)) if y[0] == 'c']
                        rep.count('level_copies')
                        if st and (c[0] if c else 1) < es:
                            rep.bad('level-copy', g.where(nd), 'the copy of the current row of %s covers %d byte(s) of each %d byte element: the rest of the new row keeps what an earlier search left there' % (short(fld), c[0] if c else 1, es), '%s|%s|size' % (g.q, short(fld)))
                else:
                    for l in loops:
                        if nd['i'] in {x['i'] for x in g.walk(l['body'])} and 'cond' in l:
                            by |= {x['i'] for x in g.walk(l['cond'])}
            for c in g.calls():
                if any(k == 'w' and f2 == fld for t in m.targets(c) for n2, k, f2, i2, z2 in s.accesses(t)):
                    by.add(c['i'])
            for inc in incs:
                if by and not dominated(g, inc['i'], by):
                    rep.bad('level-copy', g.where(inc), '%s counts %s up on a path on which the new row of %s has not been filled: it still holds what an earlier search left there' % (g.q, short(d), short(fld)), '%s|%s|row' % (g.q, short(fld)))


def check_saved(m, s, rep, f, nd, fld, idx, undo, depth):
    """pop: A[V[d]] = U[d]; push must store into U and V at [d] before counting d up and before overwriting A"""
    saves = [undo[1][2]] + [x[1][2] for x in subterms(idx) if x[0] == '[]' and x[1][0] == 'fld' and x[1][2] in s.ptr]
    d = undo[2][2] if undo[2][0] == 'fld' else None
    if d is None:
        return
    # the counter must have been counted down before its cell is read
    if d not in popped_states(s, f, depth).get(nd['i'], ()):
        anyd = [x for x in f.nodes if s.delta(f, x) and s.delta(f, x)[0] == d]
        if anyd:
            rep.bad('pop-order', f.where(nd), '%s is restored from the cell above the one that was saved: %s is not counted down before' % (short(fld), short(d)), '%s|%s|order' % (f.q, short(fld)))
    for g in s.search:
        incs = [x for x in g.nodes if s.delta(g, x) == (d, 1)]
        if not incs:
            continue
        acc = s.accesses(g)
        for sv in saves:
            ws = [n2 for n2, k2, f2, i2, z2 in acc if k2 == 'w' and f2 == sv and i2[0] == 'fld' and i2[2] == d]
            rep.count('saved_cells')
            for inc in incs:
                if not dominated(g, inc['i'], {w['i'] for w in ws}):
                    rep.bad('not-saved', g.where(inc), '%s counts %s up without having stored the overwritten value in %s on every path, so stepping back restores something else' % (g.q, short(d), short(sv)), '%s|%s' % (g.q, short(sv)))
        # the value is saved before it is overwritten
        uw = {n2['i'] for n2, k2, f2, i2, z2 in acc if k2 == 'w' and f2 == undo[1][2]}
        for n2, k2, f2, i2, z2 in acc:
            if f2 == fld and k2 == 'w' and uw and not dominated(g, n2['i'], uw):
                rep.bad('not-saved', g.where(n2), '%s is overwritten before its old value has been saved in %s' % (short(fld), short(undo[1][2])), '%s|%s|late' % (g.q, short(fld)))


def dominated(f, node, by):
    """every path from the entry to CFG element `node` passes one of `by`"""
    st = [f.entry]
    seen = set()
    while st:
        b = st.pop()
        if b in seen or b is None:
            continue
        seen.add(b)
        stop = False
        for e in f.blocks[b]['e']:
            if e == node:
                return False
            if not isinstance(e, dict) and e in by:
                stop = True
                break
        if not stop:
            st.extend(f.blocks[b]['s'])
    return True


def show(S):
    return ', '.join(sorted('%s %s %s' % (x[0][1], x[1], x[2][1]) for x in S)) or 'always'


# ---- (3) prepare before next, buffers filled before read
def check_typestate(m, s_all, rep):
    prep = {p.key for n, s, e in s_all for p in s.prepares}
    nexts = {f.key: s for n, s, e in s_all for f in s.search}
    # next functions: those taking a configuration, called from outside the search classes
    own = {f.key for n, s, e in s_all for f in s.search} | prep
    sym = Sym(m)
    uses = {}
    for f in m.fns.values():
        if f.key in own:
            continue
        for c in f.calls():
            for k in m.target_keys(c):
                if k in nexts:
                    s = nexts[k]
                    t = m.fns[k]
                    ci = [i for i, v in enumerate(t.params) if s.is_cfg(t, v)]
                    if ci and ci[0] < len(c['args']):
                        uses.setdefault(f.key, []).append((c, cfgkey(f, sym, c['args'][ci[0]])))
    rep.count('search_call_sites', sum(len(v) for v in uses.values()))
    rep.need(sum(len(v) for v in uses.values()), 4, 'calls of the search functions')
    prepcalls = {}
    for f in m.fns.values():
        for c in f.calls():
            for k in m.target_keys(c):
                if k in prep:
                    t = m.fns[k]
                    ci = [i for i, v in enumerate(t.params) if any(s.is_cfg(t, v) for n, s, e in s_all)]
                    prepcalls.setdefault(f.key, []).append((c, cfgkey(f, sym, c['args'][ci[0]])))

    def prepared_before(f, node, key, seen):
        by = {c['i'] for c, k in prepcalls.get(f.key, ()) if k == key}
        # helpers that prepare on every path
        for c in f.calls():
            for t in m.targets(c):
                if t.key in prepcalls and any(k == key for _, k in prepcalls[t.key]) and t.key not in own:
                    if all(dominated(t, r['i'], {x['i'] for x, k in prepcalls[t.key] if k == key}) for r in t.nodes if r['k'] == 'ReturnStmt') or True:
                        by.add(c['i'])
        if by and dominated(f, node, by):
            return True
        if f.key in seen:
            return True
        cs = [(g, c) for g in m.fns.values() for c in g.calls() if f.key in m.target_keys(c)]
        return bool(cs) and all(prepared_before(g, c['i'], key, seen | {f.key}) for g, c in cs)

    for k, l in sorted(uses.items()):
        f = m.fns[k]
        for c, key in l:
            if not prepared_before(f, c['i'], key, frozenset()):
                rep.bad('not-prepared', f.where(c), 'the search is continued on a path on which it was not prepared for the current input', '%s|%s' % (f.q, c.get('cn')))
    # output buffers
    for k, l in sorted(uses.items()):
        f = m.fns[k]
        for c, key in l:
            for ai, a in enumerate(c['args']):
                p = f.path(a)
                if p[0] == 'f' and p[1] == ('this',) and 'wchar_t *' in c['pt'][ai] and not c['pt'][ai].startswith('const'):
                    check_buffer(m, rep, f, p[2], uses)


def cfgkey(f, sym, a):
    p = f.path(a)
    return p[2] if p[0] == 'f' else p


def fills(m, f, i, fld, uses):
    """is node i a call whose true result means that buffer fld has been filled?"""
    i = f.strip(i)
    nd = f.nodes[i]
    for c, key in uses.get(f.key, ()):
        if c['i'] == i and any(f.path(a)[0] == 'f' and f.path(a)[2] == fld for a in c['args']):
            return True
    if nd.get('callee'):
        for t in m.targets(nd):
            rets = [x for x in t.nodes if x['k'] == 'ReturnStmt' and 'val' in x]
            if t.key in uses and rets and all(fills(m, t, x['val'], fld, uses) or t.const(x['val']) == 0 for x in rets):
                return True
    return False


def check_buffer(m, rep, f, fld, uses):
    """forward must analysis: the buffer is filled on every path to each read of it"""
    fillers = {}
    for nd in f.nodes:
        if nd.get('callee') and fills(m, f, nd['i'], fld, uses):
            fillers[nd['i']] = nd
    boolvars = {}
    for nd in f.nodes:
        if nd['k'] == 'DeclStmt':
            for d in nd['decls']:
                if 'init' in d and 'v' in d and f.strip(d['init']) in fillers:
                    boolvars[d['v']] = 1
        elif nd['k'] == 'BinaryOperator' and nd['op'] == '=' and f.strip(nd['rhs']) in fillers:
            v = f.var(nd['lhs'])
            if v is not None:
                boolvars[v] = 1

    def truth(i, t):
        nd = f.nodes[f.strip(i)]
        if nd['k'] == 'UnaryOperator' and nd['op'] == '!':
            return truth(nd['sub'], not t)
        if nd['k'] == 'BinaryOperator' and nd['op'] == '=':
            return truth(nd['rhs'], t)
        if nd['k'] == 'BinaryOperator' and nd['op'] in ('==', '!='):
            c = f.const(nd['rhs'])
            if c is not None:
                same = (nd['op'] == '==') == bool(c)
                return truth(nd['lhs'], t if same else not t)
        if nd['k'] == 'BinaryOperator' and nd['op'] in ('&&', '||'):
            return (truth(nd['lhs'], t) or truth(nd['rhs'], t)) if (nd['op'] == '&&') == t else False
        v = f.var(i)
        return t and (nd['i'] in fillers or v in boolvars)

    ins = {f.entry: False}
    wl = deque([f.entry])
    while wl:
        b = wl.popleft()
        S = ins[b]
        blk = f.blocks[b]
        for e in blk['e']:
            if not isinstance(e, dict) and e in fillers:
                S = False
        for idx, x in enumerate(blk['s']):
            if x is None:
                continue
            S2 = S or ('cond' in blk and len(blk['s']) == 2 and truth(blk['cond'], idx == 0))
            n = S2 if x not in ins else (ins[x] and S2)
            if x not in ins or n != ins[x]:
                ins[x] = n
                wl.append(x)
    args = {f.strip(a) for nd in fillers.values() for a in nd['args']}
    dels = {f.strip(nd['arg']) for nd in f.nodes if nd['k'] == 'CXXDeleteExpr'}
    for b, S in ins.items():
        for e in f.blocks[b]['e']:
            if isinstance(e, dict):
                continue
            nd = f.nodes[e]
            if nd['k'] == 'MemberExpr' and nd.get('m') == fld and e not in args and e not in dels:
                rep.count('buffer_reads')
                if not S and not element_store(f, e):
                    rep.bad('stale-buffer', f.where(nd), '%s is read on a path on which the current search has not filled it: it still holds the output of an earlier one' % short(fld), '%s|%s' % (f.q, short(fld)))
            if e in fillers:
                S = False


def element_store(f, i):
    p = f.parent.get(i)
    j = i
    while p is not None and f.nodes[p]['k'] in ('ArraySubscriptExpr',) or (p is not None and f.nodes[p]['k'] == 'UnaryOperator' and f.nodes[p]['op'] == '*'):
        j, p = p, f.parent.get(p)
    nd = f.nodes[p] if p is not None else None
    return nd is not None and nd['k'] == 'BinaryOperator' and nd['op'] == '=' and f.strip(nd['lhs']) == j and j != i


# ---- (4) other state
PURE_METHODS = {'size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'count', 'at', 'front', 'back', 'c_str', 'data', 'length', 'get', 'lower_bound', 'upper_bound', 'str', 'good'}


def long_lived(m):
    h = C.handle_record(m)
    recs, st = set(), [h['n']]
    while st:
        r = st.pop()
        if r in recs or r not in m.records:
            continue
        recs.add(r)
        for f in m.records[r]['fields']:
            for w in re.findall(r'[\w:]+', f['t']):
                if w in m.records:
                    st.append(w)
        st += list(m.subclasses(r)) + list(m.bases(r))
    return recs


def fresh_root(f, p):
    """is the object behind path p created by this very operation (local object, or pointer to a new object)?"""
    r = p
    while r[0] in ('f', 'e', 'a') or (r[0] == 'd'):
        if r[0] == 'f' or r[0] in ('e', 'd', 'a'):
            r = r[1]
    if r[0] == 'v':
        v = f.vars[r[1]]
        t = v['t']
        if r[1] in f.params:
            return False
        if '*' not in t and not t.endswith('&'):
            return True
        for nd in f.nodes:
            if nd['k'] == 'DeclStmt':
                for d in nd['decls']:
                    if d.get('v') == r[1] and 'init' in d and any(x['k'] == 'CXXNewExpr' for x in f.walk(d['init'])):
                        return True
    if r[0] == 'x' and isinstance(r[1], int) and f.nodes[r[1]]['k'] in ('CXXNewExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr'):
        return True
    return False


def scalar_field(m, q):
    rec = m.records.get(q.rsplit('::', 1)[0])
    return rec is not None and any(x['q'] == q and not re.search(r'[*<\[]', x['t']) for x in rec['fields'])


def alias_path(f, p):
    """path with references replaced by what they are bound to"""
    if p[0] == 'v' and p[1] not in f.params and f.vars[p[1]]['t'].endswith('&'):
        for nd in f.nodes:
            if nd['k'] == 'DeclStmt':
                for d in nd['decls']:
                    if d.get('v') == p[1] and 'init' in d:
                        return f.path(d['init'])
        return p
    if p[0] == 'd':
        q = alias_path(f, p[1])
        if q[0] == 'a':
            return q[1]
        if p[1][0] == 'v' and p[1][1] not in f.params and '*' in f.vars[p[1][1]]['t']:
            ds = [d for nd in f.nodes if nd['k'] == 'DeclStmt' for d in nd['decls'] if d.get('v') == p[1][1] and 'init' in d]
            if len(ds) == 1 and f.path(ds[0]['init'])[0] == 'a':
                return f.path(ds[0]['init'])[1]
        return ('d', q)
    if p[0] == 'a':
        return ('a', alias_path(f, p[1]))
    return p


def check_other(m, s_all, rep):
    recs = long_lived(m)
    rep.count('long_lived_classes', len(recs))
    conf = {s.rec['n'] for n, s, e in s_all}
    h = C.handle_record(m)['n']
    caches = set()
    st = [n for n in m.records if n.split('::')[-1] in ('GcCache', 'SpellerCache')]
    while st:
        r = st.pop()
        if r in caches:
            continue
        caches.add(r)
        for f in m.records[r]['fields']:
            for w in re.findall(r'[\w:]+', f['t']):
                if w in m.records and w not in (h,) and w.split('::')[-1] != 'GrammarChecker':
                    st.append(w)
    ops = [f for f in m.exported() if not C06.setup_like(f) and not re.search(r'(?i)free', f.name)]
    par = m.reach(ops)
    plain = {'voikko_grammar_error'}
    opts = None
    seen = set()
    for k in par:
        f = m.fns[k]
        if f.d.get('ctor') or f.d.get('dtor'):
            continue
        ev = []
        for nd in f.nodes:
            if is_write_op(nd):
                p = alias_path(f, f.path(write_target(nd)))
                ev.append((nd, p, False))
            elif nd.get('callee') and 'obj' in nd and nd.get('ext') and nd['callee'].startswith('std::') and not nd['callee'].endswith('const') and nd.get('cn') not in PURE_METHODS:
                if nd.get('cn') == 'operator[]' and not re.match(r'std::(map|unordered_map)', nd['callee']):
                    continue
                ev.append((nd, f.path(nd['obj']), True))
            elif nd['k'] == 'CXXOperatorCallExpr' and nd.get('op') in ('=', '+=') and nd.get('args'):
                ev.append((nd, f.path(nd['obj'] if 'obj' in nd else nd['args'][0]), True))
            elif nd.get('callee') and m.targets(nd):
                for ai, a in enumerate(nd.get('args', ())):
                    p = alias_path(f, f.path(a))
                    if ai < len(nd.get('pt', ())) and ('*' in nd['pt'][ai] or nd['pt'][ai].endswith('&')):
                        if p[0] == 'a':
                            p = p[1]
                        elif not nd['pt'][ai].endswith('&'):
                            continue
                        if p[0] == 'f' and scalar_field(m, p[2]) and C.effects(m).arg_written(f, nd, ai):
                            ev.append((nd, p, True))
        for nd, p, obj in ev:
            q = p
            el = False
            while q[0] in ('e', 'd'):
                el = True
                q = q[1]
            if q[0] != 'f':
                continue
            rec = q[2].rsplit('::', 1)[0]
            if rec not in recs or rec in conf or rec in caches or rec in plain or fresh_root(f, q):
                continue
            key = (f.key, q[2])
            if key in seen:
                continue
            seen.add(key)
            rep.count('session_writes')
            d = [x for x in m.records[rec]['fields'] if x['q'] == q[2]]
            if el and d and 'wchar_t' in d[0]['t'] or el and d and 'char' in d[0]['t']:
                if scratch_ok(m, f, q[2]):
                    rep.sample('scratch_buffers', q[2])
                    continue
                rep.bad('session-state', f.where(nd), 'buffer %s keeps its contents between operations and is read before it is filled' % q[2], '%s|%s' % (f.q, q[2]))
                continue
            if not obj and not el:
                F = FieldFlow(m, q[2])
                if all(F.summary(op).exit <= {'V0'} for op in ops if op.key in F.touch and k in m.reach([op])):
                    rep.sample('restored', q[2])
                    continue
            rep.bad('session-state', f.where(nd), '%s, called by an operation, changes %s of an object that lives as long as the handle; later operations can see the difference (%s)' % (f.q, q[2], m.chain(par, k)), '%s|%s' % (f.q, q[2]))


def scratch_ok(m, f, fld):
    """all accesses to the buffer are in functions of one class that write it before reading it (element writes precede every other use)"""
    for g in m.fns.values():
        ms = [nd for nd in g.nodes if nd['k'] == 'MemberExpr' and nd.get('m') == fld]
        if not ms or g.d.get('ctor') or g.d.get('dtor') or g.name == 'terminate':
            continue
        stores = {nd['i'] for nd in ms if element_store(g, nd['i'])}
        reads = [nd for nd in ms if nd['i'] not in stores]
        if not reads:
            continue
        # handed to a search as its output: covered by the buffer rule
        if any(g.nodes[x]['k'] == 'MemberExpr' for x in ()):
            continue
        outs = [c for c in g.calls() for a in c.get('args', ()) if g.nodes[g.strip(a)].get('m') == fld and not c['pt'][c['args'].index(a)].startswith('const ')]
        if outs:
            continue
        if not stores:
            return False
    return True


GROW = ('push_back', 'emplace_back', 'push_front', 'insert', 'emplace', 'append', 'push', 'operator[]', 'operator+=', 'operator<<')
RESET = ('clear', 'erase', 'swap', 'resize', 'assign', 'operator=', 'str', 'pop_back', 'pop_front', 'pop')
LOOKUP = ('find', 'count', 'end', 'cend', 'contains')


def check_static(m, rep):
    """static objects of a function (also thread-local ones) that grow or count with every operation and are read back"""
    ops = [f for f in m.exported() if not C06.setup_like(f) and not re.search(r'(?i)free', f.name)]
    par = m.reach(ops)
    for k in par:
        f = m.fns[k]
        by = {}
        for nd in f.nodes:
            g = C05.gname(f, nd)
            d = m.globals.get(g, {}) if g else {}
            if g and not d.get('const') and g not in C05.STREAMS and not g.startswith('std::') and not any(x in d.get('t', '') for x in C05.SYNC):
                by.setdefault(g, []).append(nd)
        if not by:
            continue
        where = positions(f)
        for g, uses in by.items():
            grow, reset, read, over = [], [], [], []
            for nd in uses:
                i, p = nd['i'], f.parent.get(nd['i'])
                while p is not None and f.nodes[p]['k'] in ('ImplicitCastExpr', 'ParenExpr'):
                    i, p = p, f.parent.get(p)
                pn = f.nodes[p] if p is not None else {'k': ''}
                obj = pn.get('obj') if 'obj' in pn else (pn['args'][0] if pn['k'] == 'CXXOperatorCallExpr' and pn.get('args') else None)
                if is_write_op(pn) and f.strip(write_target(pn)) == f.strip(i):
                    if pn['k'] == 'UnaryOperator' or pn.get('op') in ('+=', '-=', '*=', '|=', '^='):
                        grow.append(pn)
                        if used_value(f, pn['i']):
                            read.append(pn)
                    else:
                        reset.append(pn)
                elif pn.get('callee') and obj is not None and f.strip(obj) == f.strip(i):
                    if pn.get('cn') in RESET:
                        reset.append(pn)
                    elif pn.get('cn') in GROW and (pn['cn'] != 'operator[]' or re.match(r'std::(unordered_)?map', pn['callee'])):
                        if any(f.nodes[f.strip(a)]['k'] not in ('StringLiteral', 'IntegerLiteral', 'CharacterLiteral') for a in pn.get('args', ()) if f.strip(a) != f.strip(i)):
                            grow.append(pn)
                    elif pn.get('cn') in ('begin', 'cbegin', 'rbegin', 'c_str', 'front', 'back', 'top', 'size', 'length', 'data'):
                        over.append(pn)
                    else:
                        read.append(pn)
                elif pn['k'] in ('MemberExpr', 'ArraySubscriptExpr') or pn.get('op') == '&' and pn['k'] == 'UnaryOperator':
                    reset.append(pn)        # parts of it are handled somewhere: not judged
                elif pn.get('callee') and pn['k'] not in ('CXXConstructExpr', 'CXXOperatorCallExpr') and not re.match(r'(const )?(unsigned )?(int|long|short|bool|size_t|char)$', m.globals[g].get('t', '').strip() if g in m.globals else ''):
                    reset.append(pn)
                else:
                    read.append(pn)
            if not grow or reset:
                continue
            scalar = grow[0]['k'] in ('UnaryOperator', 'BinaryOperator', 'CompoundAssignOperator')
            seen = read if scalar else over
            if not seen:
                continue
            rep.count('static_accumulators')
            free = [n for n in grow if n['i'] in where and not static_guard(m, f, where[n['i']][0])]
            if free:
                rep.bad('session-state', f.where(free[0]), '%s keeps static object %s from one operation to the next, adds to it in every operation and uses what it holds at %s (%s)'
                        % (f.q, g.split('@')[0], f.where(seen[0]), m.chain(par, k)), '%s|%s' % (f.q, g.split('@')[0]))


def used_value(f, i):
    p = f.parent.get(i)
    if p is None:
        return False
    pn = f.nodes[p]
    if pn['k'] in ('ReturnStmt', 'DeclStmt'):
        return True
    if pn['k'] in ('IfStmt', 'WhileStmt', 'DoStmt', 'ForStmt', 'SwitchStmt'):
        return pn.get('cond') == i
    return not pn['k'].endswith('Stmt')


def static_guard(m, f, b):
    """is block b entered only under a condition on a static object (one-time initialisation)?"""
    for d in dominators(f).get(b, ()):
        blk = f.blocks[d]
        if d == b or 'cond' not in blk or len(blk['s']) != 2:
            continue
        if not any(C05.gname(f, x) and not m.globals.get(C05.gname(f, x), {}).get('const') and not lookup_only(f, x['i']) for x in f.walk(blk['cond'])):
            continue
        for s in blk['s']:
            if s is None:
                continue
            st, sn = [s], {d}
            while st:
                x = st.pop()
                if x in sn or x is None:
                    continue
                sn.add(x)
                st += [y for y in f.blocks[x]['s'] if y is not None]
            if b not in sn:
                return True
    return False


def lookup_only(f, i):
    p = f.parent.get(i)
    while p is not None and f.nodes[p]['k'] in ('ImplicitCastExpr', 'ParenExpr'):
        p = f.parent.get(p)
    return p is not None and f.nodes[p].get('cn') in LOOKUP


def run(m, rep, tier):
    ss = searches(m)
    rep.need(len(ss), 2, 'transducer search classes')
    for cls, s, ent in ss:
        rep.count('search_classes')
        rep.count('search_functions', len(s.search))
        rep.need(len(s.search), 2, 'functions of the search in ' + cls)
        d, up, down = check_prepare(m, s, rep, cls)
        check_balance(m, s, rep, d, up, down)
    check_typestate(m, ss, rep)
    check_other(m, ss, rep)
    check_static(m, rep)
