"""Spelling results never depend on earlier checks: option-to-cache coherence, slot layout and result fidelity of the speller cache.

Rule 1 (effect analysis): the fields of the handle that are read anywhere in the call-graph closure of the computation whose
result is stored in the speller cache are exactly the dependencies of a cached result; on every path of the option-setting API
that writes such a field the cache must also be emptied or replaced (or be absent, or the value be unchanged).
Rule 2 (value sets): every result value that is stored is read back as the same value.
Rule 3 (symbolic expressions): lookup, read-back and store address the same slot for the same word, the whole word is compared,
and the slot ranges of different word lengths are disjoint and inside the allocated tables.
"""
import re
from rules import common as C
from vlib.cachecoh import coherence
from vlib.model import AnalysisError
from vlib.sym import Sym, subterms
from vlib.valset import ValSet, TOP
from vlib.effects import is_write_op, write_target

RULE = 'deps(cached spelling computation) are tied to cache invalidation on every option-setting path; stored results decode to themselves; slots are addressed consistently'
ASSUMPTIONS = ['fields are identified by declaration (no aliasing of handle fields through unrelated types)',
               'std:: and libc functions do not read the handle']

PROP = {
    'id': 'C01', 'title': 'Spelling results are independent of earlier checks and of the cache',
    'statement': 'For every sequence of option changes and spelling checks on a handle, the verdict for a word is the one a fresh handle with the same option values would give. '
                 'The result cache (any size, or disabled) changes only speed: a remembered verdict is returned unchanged, only for exactly the same word, and only while no option that influences it has changed.',
    'quantifier': {'over': ['histories', 'inputs', 'configurations'], 'text': 'all interleavings of option setting, cache sizing and spell checking on one handle, all words'},
    'why_tests_cant': 'Tests check words one by one after setting options; a stale or mixed-up cache entry needs a particular history of (word, option, word) or two particular words that share a slot.',
    'anchors': {'files': ['libvoikko/src/spellchecker/SpellerCache.cpp', 'libvoikko/src/spellchecker/spell.cpp', 'libvoikko/src/setup/setup.cpp'],
                'mechanism': [{'name': 'SpellerCache', 'where': 'libvoikko/src/spellchecker/SpellerCache.cpp'},
                              {'name': 'cache lookup and store around the speller call', 'where': 'libvoikko/src/spellchecker/spell.cpp'},
                              {'name': 'cache emptied or replaced when an option changes', 'where': 'libvoikko/src/setup/setup.cpp'}],
                'observe_at': ['voikkoSpellCstr', 'voikkoSpellUcs4', 'voikkoSetBooleanOption', 'voikkoSetIntegerOption']}}


def cache_parts(m):
    rec = C.find_record(m, 'SpellerCache')
    ms = C.methods(m, rec)
    store = [f for f in ms if not f.d['const'] and not f.d['ctor'] and any('spellresult' in t for t in f.d['pt'])]
    look = [f for f in ms if f.d['const'] and f.d['ret'] == 'bool']
    get = [f for f in ms if f.d['const'] and 'spellresult' in f.d['ret']]
    return rec, ms, store, look, get


def slice_callees(m, f, arg):
    """calls whose result flows into expression arg through local variables"""
    out, seen, st = [], set(), [arg]
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        for nd in f.walk(i):
            if nd.get('callee') and nd['k'] != 'CXXConstructExpr':
                out.append(nd)
            if nd['k'] == 'DeclRefExpr' and nd.get('dk') == 'var':
                v = nd['v']
                for d in f.nodes:
                    if d['k'] == 'DeclStmt':
                        for x in d['decls']:
                            if x.get('v') == v and 'init' in x:
                                st.append(x['init'])
                    elif is_write_op(d) and f.var(write_target(d)) == v and 'rhs' in d:
                        st.append(d['rhs'])
    return out


def run(m, rep, tier):
    rec, ms, store, look, get = cache_parts(m)
    h = C.handle_record(m)
    opts = C.option_fields(m)
    eff = C.effects(m)
    if not store or not look:
        raise AnalysisError('SpellerCache has no store/lookup operation')
    cache_fields = [f['q'] for f in h['fields'] if 'SpellerCache' in f['t']]
    if not cache_fields:
        raise AnalysisError('handle has no speller cache field')

    # ---- rule 1
    deps = {}
    nstores = 0
    for f in m.fns.values():
        if f.cls == rec['n']:
            continue
        for nd in f.calls():
            if nd.get('callee') in {s.key for s in store}:
                nstores += 1
                s = m.fns[nd['callee']]
                ri = [i for i, t in enumerate(s.d['pt']) if 'spellresult' in t][0]
                cs = slice_callees(m, f, nd['args'][ri])
                roots = [t for c in cs for t in m.targets(c) if t.cls != rec['n']]
                R, W, par = eff.transitive(roots)
                rep.count('functions_in_cached_computation', len(par))
                for fld, w in R.items():
                    if fld in opts:
                        deps.setdefault(fld, w)
                # reads made in the caching function itself between lookup and store
                lk = [b for b in f.blocks for e in f.blocks[b]['e'] if not isinstance(e, dict) and f.nodes[e].get('callee') in {x.key for x in look}]
                stb = [b for b in f.blocks for e in f.blocks[b]['e'] if e == nd['i']]
                region = between(f, lk, stb)
                for b in region:
                    for e in f.blocks[b]['e']:
                        for kind, fld, base in (eff.events(f).get(e, []) if not isinstance(e, dict) else []):
                            if kind == 'r' and fld in opts:
                                deps.setdefault(fld, (f.key, f.nodes[e]))
    rep.need(nstores, 1, 'stores into the speller cache')
    rep.count('cache_store_sites', nstores)
    rep.count('option_dependencies', len(deps))
    tables = content_fields(m, rec, ms)

    def ev_invalidate(f, nd):
        if is_write_op(nd):
            p = f.path(write_target(nd))
            if p[0] == 'f' and p[2] in cache_fields:
                return True
        if nd.get('cn') in ('memset', 'wmemset', 'fill', 'fill_n', 'clear', 'assign') and nd.get('ext'):
            for a in list(nd.get('args', ()))[:1] + ([nd['obj']] if 'obj' in nd else []):
                for x in f.walk(a):
                    if x['k'] == 'MemberExpr' and x.get('m') in tables:
                        return True
        if nd['k'] in ('ForStmt', 'WhileStmt', 'DoStmt'):
            return False
        if is_write_op(nd) and f.cls == rec['n'] and f.key not in {s.key for s in store}:
            p = f.path(write_target(nd))
            if p[0] == 'e' and p[1][0] == 'f' and p[1][2] in tables:
                return True
        return False

    def cache_absent(f, cond, truth):
        nd = f.nodes[f.strip(cond)]
        neg = False
        while nd['k'] == 'UnaryOperator' and nd['op'] == '!':
            neg = not neg
            nd = f.nodes[f.strip(nd['sub'])]
        t = truth != neg
        if nd['k'] == 'BinaryOperator' and nd['op'] in ('==', '!='):
            for a, b in (('lhs', 'rhs'), ('rhs', 'lhs')):
                if f.isnull(nd[b]) and is_cache(f, nd[a]):
                    return (nd['op'] == '==') == t
            return False
        if is_cache(f, nd['i']):
            return not t
        if nd['k'] == 'DeclRefExpr' and nd.get('dk') == 'var' and nd['v'] in C.sym(m).single_defs(f):
            return cache_absent(f, C.sym(m).single_defs(f)[nd['v']], t)
        return False

    def is_cache(f, i):
        p = f.path(i)
        if p[0] == 'f' and p[2] in cache_fields:
            return True
        return 'SpellerCache' in f.nodes[f.strip(i)].get('t', '')
    coherence(m, rep, 'speller', deps, ev_invalidate, cache_absent, C.option_setters(m))

    # ---- rule 2: stored results decode to themselves
    enum = [e for n, e in m.enums.items() if n.endswith('spellresult')]
    if enum and get:
        fidelity(m, rep, rec, store, get, enum[0])
    # ---- rule 3
    layout(m, rep, rec, ms, store, look, get)
    tables_cleared(m, rep, rec, ms)
    emptied(m, rep, rec, ms, look)
    admitted(m, rep, rec, store, look)
    paired(m, rep, rec, store)
    keys_at_calls(m, rep, rec, store, look, get)
    # ---- rule 4: no other state connects one check with a later one
    C.fold(m, rep, ('C03', 'C04', 'C05'), [f for f in m.exported() if re.match(r'voikkoSpell(Ucs4|Cstr)$', f.name)], tier)


def between(f, src, dst):
    fw, st = set(), list(src)
    while st:
        b = st.pop()
        if b in fw:
            continue
        fw.add(b)
        st.extend(x for x in f.blocks[b]['s'] if x is not None)
    pr = f.preds()
    bw, st = set(), list(dst)
    while st:
        b = st.pop()
        if b in bw:
            continue
        bw.add(b)
        st.extend(p for p, _ in pr[b])
    return fw & bw


def content_fields(m, rec, ms):
    """pointer/array/container fields of the cache (not its configuration)"""
    return {f['q'] for f in rec['fields'] if '*' in f['t'] or 'std::' in f['t'] or f.get('asz')}


def fidelity(m, rep, rec, store, get, enum):
    tables = content_fields(m, rec, C.methods(m, rec))
    names = {c['v']: c['n'] for c in enum['c']}
    for s in store:
        ri = [i for i, t in enumerate(s.d['pt']) if 'spellresult' in t][0]
        for val in sorted(names):
            written = {}

            def st(f, nd, t, v, state):
                p = f.path(t)
                if p[0] == 'e' and p[1][0] == 'f' and p[1][2] in tables:
                    fld = p[1][2]
                    written[fld] = v if fld not in written else (TOP if v is TOP or written[fld] is TOP else written[fld] | v)
            V = ValSet(m, store=st)
            V.solve(s, {s.params[ri]: frozenset((val,))})
            if not written:
                continue
            for g in get:
                def ld(f, nd, state):
                    p = f.path(nd['i'])
                    if p[0] == 'e' and p[1][0] == 'f' and p[1][2] in written:
                        return written[p[1][2]]
                    return NotImplemented
                V2 = ValSet(m, load=ld)
                r = V2.returns(g, [TOP] * len(g.params))
                rep.count('stored_results_decoded')
                if r is TOP:
                    rep.note('decoding of %s in %s not a finite value set' % (names[val], g.q))
                elif r != frozenset((val,)):
                    rep.bad('cache-fidelity', g.where(), 'result %s stored by %s is read back as %s' % (names[val], s.q, sorted(names.get(x, x) for x in r)),
                            '%s|%s' % (g.q, names[val]))
                else:
                    rep.sample('decoded', '%s -> %s -> %s' % (names[val], {k: sorted(v) for k, v in written.items() if v is not TOP}, names[val]))


def slot_terms(m, S, f, fields):
    """symbolic offsets with which f addresses each table field"""
    out = []
    for nd in f.nodes:
        t = None
        if nd['k'] == 'ArraySubscriptExpr':
            t = S(f, nd['i'])
            if t[0] == '[]' and t[1][0] == 'fld' and t[1][2] in fields:
                out.append((t[1][2], t[2], nd, None))
        elif nd.get('cn') in ('wcsncmp', 'wmemcmp', 'memcmp', 'wcsncpy', 'wmemcpy', 'memcpy', 'equal', 'copy', 'copy_n', 'wcscmp'):
            for ai, a in enumerate(nd['args']):
                t = S(f, a)
                base, off = None, ('c', 0)
                if t[0] == 'fld' and t[2] in fields:
                    base = t[2]
                elif t[0] == '+':
                    b = [x for x in t[1] if x[0] == 'fld' and x[2] in fields]
                    if b:
                        base = b[0][2]
                        r = [x for x in t[1] if x is not b[0]]
                        off = r[0] if len(r) == 1 else ('+', tuple(r))
                if base:
                    out.append((base, off, nd, ai))
    return out


def layout(m, rep, rec, ms, store, look, get):
    S = Sym(m)
    ptrs = {f['q'] for f in rec['fields'] if '*' in f['t']}
    offs = {}
    for f in ms:
        if f.d['ctor'] or f.d['dtor']:
            continue
        for fld, off, nd, ai in slot_terms(m, S, f, ptrs):
            offs.setdefault(fld, []).append((f, off, nd))
    ok = True
    for fld, l in offs.items():
        keyed = [(f, off, nd) for f, off, nd in l if any(t[0] == 'p' for t in subterms(off))]
        forms = {}
        for f, off, nd in keyed:
            forms.setdefault(off, []).append((f, nd))
        rep.count('slot_address_expressions', len(keyed))
        if len(forms) > 1:
            # the store's address is the reference
            ref = None
            for off, us in forms.items():
                if any(f.key in {s.key for s in store} for f, nd in us):
                    ref = off
            for off, us in forms.items():
                if off != ref:
                    f, nd = us[0]
                    ok = False
                    rep.bad('slot-address', f.where(nd), 'this access to %s addresses another slot than the store of the same word does' % fld, '%s|%s' % (f.q, fld))
    # whole word compared
    for f in look:
        for nd in f.nodes:
            if nd.get('cn') in ('wcsncmp', 'wmemcmp', 'memcmp') and len(nd['args']) == 3:
                n = S(f, nd['args'][2])
                rep.count('lookup_comparisons')
                wl = [i for i, t in enumerate(f.d['pt']) if 'unsigned' in t or t == 'int' or t == 'long']
                unit = 1 if nd['cn'] == 'memcmp' else 4
                if n[0] == 'p' and n[1] in wl and unit == 4:
                    continue
                c = covers(m, n, wl, unit)
                if c or c is None and unit == 1:
                    continue
                rep.bad('partial-key', f.where(nd), 'the lookup does not compare the whole word (length argument is not the word length)', f.q)
    # the word stored is the whole word
    for f in store:
        for nd in f.nodes:
            if nd.get('cn') in ('wcsncpy', 'wmemcpy', 'memcpy') and len(nd['args']) == 3:
                n = S(f, nd['args'][2])
                rep.count('key_copies')
                wl = [i for i, t in enumerate(f.d['pt']) if 'unsigned' in t or t == 'int' or t == 'long']
                unit = 1 if nd['cn'] == 'memcpy' else 4
                c = covers(m, n, wl, unit)
                if not (n[0] == 'p' and n[1] in wl and unit == 4 or c or c is None and unit == 1):
                    rep.bad('partial-key', f.where(nd), 'the stored key is not the whole word', f.q)
    if not ok:
        return
    # numeric disjointness for every admissible word length and a range of size parameters
    sizes = alloc_sizes(m, S, ms)
    for fld, l in offs.items():
        st = [(f, off, nd) for f, off, nd in l if f.key in {s.key for s in store}]
        if not st or fld not in sizes:
            continue
        f, off, nd = st[0]
        wl = [i for i, t in enumerate(f.d['pt']) if 'unsigned' in t][0:1]
        if not wl:
            continue
        # does one access cover wlen cells (key table) or one (result table)?
        span_is_word = nd.get('cn') in ('wcsncpy', 'wmemcpy', 'memcpy', 'copy', 'copy_n')
        for s in range(0, 4):
            regs = []
            for n in range(1, 64):
                env = {'p%d' % wl[0]: n, 'sizeParam': s}
                try:
                    lo, hi = evali(m, off, env)
                except IndexError:
                    if guard_allows(m, f, wl[0], n) and not guard_allows(m, f, wl[0], 63):
                        rep.bad('slot-bounds', f.where(nd), 'a word of %d letters is stored, but the tables that give its slot in %s end before that length' % (n, fld), '%s|%d' % (fld, n))
                    break
                except (KeyError, ValueError) as e:
                    rep.note('slot layout of %s not evaluated: %s' % (fld, e))
                    return
                if not guard_allows(m, f, wl[0], n):
                    break
                regs.append((n, lo, hi + (n if span_is_word else 1)))
            if not regs:
                rep.note('slot layout of %s: no evaluable length' % fld)
                continue
            try:
                tot = evali(m, sizes[fld], {'p0': s, 'sizeParam': s})
            except (KeyError, ValueError):
                tot = None
            rep.count('slot_ranges_checked', len(regs))
            regs2 = sorted(regs, key=lambda r: r[1])
            for (n1, a1, b1), (n2, a2, b2) in zip(regs2, regs2[1:]):
                if b1 > a2:
                    rep.bad('slot-overlap', f.where(nd), 'with size parameter %d the cells of %s for word length %d (%d..%d) overlap those for length %d (from %d)' % (s, fld, n1, a1, b1 - 1, n2, a2), '%s|%d-%d' % (fld, n1, n2))
            if tot:
                for n, a, b in regs:
                    if a < 0:
                        rep.bad('slot-bounds', f.where(nd), 'with size parameter %d the cells of %s for word length %d start at %d, before the table' % (s, fld, n, a), '%s|%d' % (fld, n))
                    if b > tot[0]:
                        rep.bad('slot-bounds', f.where(nd), 'with size parameter %d the cells of %s for word length %d end at %d beyond the %d allocated' % (s, fld, n, b, tot[0]), '%s|%d' % (fld, n))


def alloc_sizes(m, S, ms):
    sizes = {}
    for f in ms:
        if not f.d['ctor']:
            continue
        for nd in f.nodes:
            if nd['k'] == 'BinaryOperator' and nd['op'] == '=':
                p = f.path(nd['lhs'])
                r = f.nodes[f.strip(nd['rhs'])]
                if p[0] == 'f' and r['k'] == 'CXXNewExpr' and r.get('array'):
                    sizes[p[2]] = S(f, r['size'])
        for b in f.blocks.values():
            for e in b['e']:
                if isinstance(e, dict) and 'minit' in e and isinstance(e.get('e'), int):
                    r = f.nodes[f.strip(e['e'])]
                    if r['k'] == 'CXXNewExpr' and r.get('array'):
                        sizes[e['minit']] = S(f, r['size'])
    return sizes


WIDTH = {'wchar_t': 4, 'char': 1, 'int': 4, 'unsigned char': 1, 'short': 2, 'unsigned short': 2}


def covers(m, n, wl, unit):
    """does a count of units cover a word of any length? None: not evaluated"""
    if len(wl) != 1:
        return None
    try:
        return all(evali(m, n, {'p%d' % wl[0]: k})[0] * unit >= 4 * k for k in range(1, 11))
    except (KeyError, ValueError, IndexError):
        return None


def emptied(m, rep, rec, ms, look):
    """emptying the cache changes something that lookups depend on"""
    ptrs = {f['q'] for f in rec['fields'] if '*' in f['t'] or 'std::' in f['t'] or f.get('asz')}
    mine = {f['q'] for f in rec['fields']}

    def members(f):
        return {x['m'] for x in f.nodes if x['k'] == 'MemberExpr' and x.get('m') in mine}
    read = set()
    for g in look:
        for k in m.reach([g]):
            read |= members(m.fns[k])
    for f in ms:
        if f.d['ctor'] or f.d['dtor'] or f.params or not any(nd.get('cn') in ('memset', 'wmemset', 'fill', 'fill_n') for nd in f.nodes):
            continue
        touched = set()
        for k in m.reach([f]):
            touched |= members(m.fns[k])
        if not touched & ptrs:
            continue
        rep.count('emptying_functions')
        if read & ptrs and not touched & (read & ptrs):
            rep.bad('not-emptied', f.where(), 'emptying the cache leaves everything that a lookup compares (%s) as it was' % ', '.join(sorted(read & ptrs)), f.q)


def tables_cleared(m, rep, rec, ms):
    """emptying covers the whole of each table"""
    S = Sym(m)
    sizes = alloc_sizes(m, S, ms)
    ft = {f['q']: f['t'] for f in rec['fields']}
    for f in ms:
        if f.d['dtor']:
            continue
        for nd in f.nodes:
            if nd.get('cn') not in ('memset', 'wmemset', 'fill_n', 'fill') or len(nd.get('args', ())) != 3:
                continue
            t = S(f, nd['args'][0])
            fld = [x[2] for x in ([t] if t[0] == 'fld' else list(t[1]) if t[0] == '+' else []) if x[0] == 'fld' and x[2] in sizes]
            if len(fld) != 1:
                continue
            fld = fld[0]
            w = WIDTH.get(ft[fld].replace('*', '').replace('const', '').strip())
            n = S(f, nd['args'][2 if nd['cn'] in ('memset', 'wmemset') else 1])
            if nd['cn'] == 'fill':
                if n[0] != '+' or not [x for x in n[1] if x[0] == 'fld' and x[2] == fld]:
                    continue
                r = [x for x in n[1] if not (x[0] == 'fld' and x[2] == fld)]
                n = r[0] if len(r) == 1 else ('+', tuple(r))
            if w is None:
                continue
            rep.count('table_resets_checked')
            for s in range(0, 4):
                try:
                    tot = evali(m, sizes[fld], {'p0': s, 'sizeParam': s})
                    got = evali(m, n, {'p0': s, 'sizeParam': s})
                except (KeyError, ValueError, IndexError):
                    rep.note('extent of the reset of %s not evaluated' % fld)
                    break
                unit = 1 if nd['cn'] == 'memset' else w
                if t[0] != 'fld' or got[1] * unit < tot[0] * w:
                    rep.bad('partial-reset', f.where(nd), 'with size parameter %d emptying the cache resets %d of the %d bytes of %s%s' % (s, got[1] * unit, tot[0] * w, fld, '' if t[0] == 'fld' else ', not from its start'), '%s|%s' % (f.q, fld))
                    break


def admitted(m, rep, rec, store, look):
    """a lookup can succeed only for word lengths that are stored"""
    for g in look:
        wl = [i for i, t in enumerate(g.d['pt']) if 'unsigned' in t]
        if len(wl) != 1 or not any('wchar_t' in t for t in g.d['pt']):
            continue
        for n in range(1, 40):
            V = ValSet(m)
            args = [TOP] * len(g.params)
            args[wl[0]] = frozenset((n,))
            r = V.returns(g, args)
            ok = True
            for f in store:
                w2 = [i for i, t in enumerate(f.d['pt']) if 'unsigned' in t][:1]
                ok = not w2 or guard_allows(m, f, w2[0], n)
                if ok:
                    break
            rep.count('lookup_lengths_checked')
            if r != frozenset((0,)) and not ok:
                rep.bad('length-never-stored', g.where(), 'a word of %d letters can be found in the cache, but words of that length are never stored' % n, g.q)
                break


def paired(m, rep, rec, store):
    """where a key is written its verdict is written too"""
    from vlib.pairs import Pairs
    ptrs = {f['q'] for f in rec['fields'] if '*' in f['t'] or 'std::' in f['t'] or f.get('asz')}

    def writes(f, nd):
        out = set()
        if is_write_op(nd):
            p = f.path(write_target(nd))
            while p[0] in ('e', 'd'):
                p = p[1]
            if p[0] == 'f' and p[2] in ptrs:
                out.add(p[2])
        elif nd.get('cn') in ('wcsncpy', 'wmemcpy', 'memcpy', 'copy', 'copy_n', 'strncpy') and nd.get('args'):
            for x in f.walk(nd['args'][2 if nd['cn'] in ('copy', 'copy_n') and len(nd['args']) > 2 else 0]):
                if x['k'] == 'MemberExpr' and x.get('m') in ptrs:
                    out.add(x['m'])
        return out
    for s in store:
        allw = set()
        for k in m.reach([s]):
            f = m.fns[k]
            for nd in f.nodes:
                allw |= writes(f, nd)
        for a in sorted(allw):
            for b in sorted(allw - {a}):
                P = Pairs(m, lambda f, nd, c: a in writes(f, nd), lambda f, nd, c: b in writes(f, nd), lambda f, c, t, x: False, lambda f, nd, t, c: c)
                rep.count('tables_written_together')
                if (1, 0) in P.summary(s, frozenset()):
                    rep.bad('half-written', s.where(), 'on some path storing a verdict writes %s but not %s, so the word keeps the verdict of the one that had the slot before' % (a, b), '%s|%s' % (s.q, b))


def keys_at_calls(m, rep, rec, store, look, get):
    """the verdict is stored and read back under the key that was looked up, and computed for that key"""
    S = Sym(m)
    keys = {x.key for x in store} | {x.key for x in look} | {x.key for x in get}
    for f in m.fns.values():
        if f.cls == rec['n']:
            continue
        calls = [nd for nd in f.nodes if nd.get('callee') in keys]
        if not any(nd['callee'] in {x.key for x in store} for nd in calls):
            continue

        def key_of(nd, t):
            return tuple(S(f, a) for a, ty in zip(nd['args'], t.d['pt']) if 'wchar_t' in ty or 'unsigned' in ty)
        lk = [nd for nd in calls if nd['callee'] in {x.key for x in look}]
        st = [nd for nd in calls if nd['callee'] in {x.key for x in store}]
        if not lk:
            continue
        if len(lk) > 1:
            sk = {key_of(nd, m.fns[nd['callee']]) for nd in st}
            if len(sk) != 1:
                continue
            lk = [st[0]]
        ref = key_of(lk[0], m.fns[lk[0]['callee']])
        if any(t[0] in ('x', '?') for t in ref):
            continue
        for nd in calls:
            if nd is lk[0]:
                continue
            k = key_of(nd, m.fns[nd['callee']])
            rep.count('cache_keys_compared')
            if len(k) == len(ref) and k != ref and not any(t[0] == 'x' for t in k):
                rep.bad('other-key', f.where(nd), 'the cache is used here under another key than the one that was looked up', '%s|%s' % (f.q, nd.get('cn')))
        for nd in st:
            s = m.fns[nd['callee']]
            ri = [i for i, t in enumerate(s.d['pt']) if 'spellresult' in t]
            for c in slice_callees(m, f, nd['args'][ri[0]]) if ri else ():
                pt = c.get('pt', [])
                ws = [a for a, ty in zip(c.get('args', ()), pt) if 'wchar_t' in ty or 'unsigned' in ty]
                if len(ws) == len(ref) and m.targets(c):
                    k = tuple(S(f, a) for a in ws)
                    rep.count('cached_computations_compared')
                    if k != ref and not any(t[0] == 'x' for t in k):
                        rep.bad('other-key', f.where(c), 'the verdict that is stored was computed for another text than its key', '%s|%s' % (f.q, c.get('cn')))


def guard_allows(m, f, pi, n):
    V = ValSet(m)
    reached = []

    def st(g, nd, t, v, state):
        reached.append(1)
    V.store = st
    ri = [i for i, t in enumerate(f.d['pt']) if 'spellresult' in t]
    V.solve(f, {f.params[pi]: frozenset((n,))})
    return bool(reached)


def evali(m, t, env):
    """interval value of a symbolic term"""
    k = t[0]
    if k == 'c':
        return (t[1], t[1])
    if k == 'p':
        v = env['p%d' % t[1]] if 'p%d' % t[1] in env else None
        if v is None:
            raise KeyError('parameter %d' % t[1])
        return (v, v)
    if k == 'fld':
        n = t[2].split('::')[-1]
        if n in env:
            return (env[n], env[n])
        if 'sizeParam' in env and 'ize' in n:
            return (env['sizeParam'],) * 2
        raise KeyError(t[2])
    if k == '[]' and t[1][0] == 'g':
        g = m.globals.get(t[1][1])
        lo, hi = evali(m, t[2], env)
        if not g or 'init' not in g or 'list' not in g['init']:
            raise KeyError(t[1][1])
        l = [x.get('ev') for x in g['init']['list']]
        if lo != hi:
            raise ValueError('index range')
        if lo >= len(l) or lo < 0:
            raise IndexError(t[1][1])
        return (l[lo], l[lo])
    if k in ('+', '*'):
        lo, hi = None, None
        for x in t[1]:
            a, b = evali(m, x, env)
            if lo is None:
                lo, hi = a, b
            elif k == '+':
                lo, hi = lo + a, hi + b
            else:
                lo, hi = lo * a, hi * b
        return lo, hi
    if k == 'b<<':
        a, b = evali(m, t[1], env), evali(m, t[2], env)
        return (a[0] << b[0], a[1] << b[1])
    if k == 'b%':
        b = evali(m, t[2], env)
        return (0, b[1] - 1)
    if k == '?':
        a, b = evali(m, t[1], env)
        if a != b:
            raise ValueError('condition')
        return evali(m, t[2 if a else 3], env)
    if k in ('b-', 'b/', 'b<', 'b>', 'b<=', 'b>=', 'b==', 'b!=', 'b&&', 'b||'):
        (a, a2), (b, b2) = evali(m, t[1], env), evali(m, t[2], env)
        if k == 'b-':
            return (a - b2, a2 - b)
        if a != a2 or b != b2 or k == 'b/' and b <= 0:
            raise ValueError(k)
        v = {'b/': lambda: a // b, 'b<': lambda: a < b, 'b>': lambda: a > b, 'b<=': lambda: a <= b, 'b>=': lambda: a >= b, 'b==': lambda: a == b,
             'b!=': lambda: a != b, 'b&&': lambda: bool(a and b), 'b||': lambda: bool(a or b)}[k]()
        return (int(v), int(v))
    if k == 'u!':
        a, b = evali(m, t[1], env)
        if a != b:
            raise ValueError('!')
        return (int(not a),) * 2
    if k == 'call':
        f = m.fns.get(t[1])
        if f is None:
            raise KeyError(t[1])
        return hash_range(m, f, [a for a in t[2:]], env)
    raise KeyError(k)


def hash_range(m, f, args, env):
    """range of a function all of whose return values are reductions modulo something, or constants"""
    S = Sym(m)
    bind = {}
    for i, a in enumerate(args):
        try:
            bind[i] = evali(m, a, env)
        except (KeyError, ValueError):
            pass
    rets = [nd for nd in f.nodes if nd['k'] == 'ReturnStmt' and 'val' in nd]
    lo, hi = 0, 0
    for r in rets:
        v = f.var(r['val'])
        exprs = []
        if v is None:
            exprs.append(r['val'])
        else:
            for nd in f.nodes:
                if nd['k'] == 'DeclStmt':
                    exprs += [d['init'] for d in nd['decls'] if d.get('v') == v and 'init' in d]
                elif is_write_op(nd) and f.var(write_target(nd)) == v:
                    if nd['k'] == 'BinaryOperator':
                        exprs.append(nd['rhs'])
                    elif nd.get('op') == '%=':
                        exprs = [x for x in exprs if f.const(x) is not None]
                        exprs.append(('mod', nd['rhs']))
                    else:
                        exprs.append(nd['i'])
        # an unreduced update followed by an unconditional reduction is covered by the %= case above
        for e in exprs:
            signed = False
            if isinstance(e, tuple):
                md = S(f, e[1])
                signed = v is not None and not_unsigned(f.vars[v]['t'])
            else:
                t = S(f, e)
                if t[0] == 'c':
                    lo, hi = min(lo, t[1]), max(hi, t[1])
                    continue
                if t[0] == 'b&' and (t[2][0] != 'p' or True):
                    md = ('+', (t[2], ('c', 1)))
                elif t[0] == 'b%':
                    md = t[2]
                    x = f.nodes[f.strip(e)]
                    signed = x['k'] == 'BinaryOperator' and not_unsigned(x['t'])
                else:
                    raise ValueError('hash not reduced')
            env2 = {('p%d' % i): b[0] for i, b in bind.items() if b[0] == b[1]}
            a = evali(m, md, env2)
            hi = max(hi, a[1] - 1)
            if signed:      # the remainder of a negative dividend is negative; character values may be any wchar_t
                lo = min(lo, 1 - a[1])
    return lo, hi


def not_unsigned(t):
    return 'unsigned' not in t and t.replace('const ', '') in ('int', 'long', 'long long', 'short', 'wchar_t', 'char')
