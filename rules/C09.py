"""What the C interface hands out can be released with the function documented for it, completely.

Rule 1: every exported release function releases its argument on every path on which it is not null (with one form), and an argument that
is an array of blocks together with its elements.
Rule 2: for every exported function that returns a block to be released by the caller, the form of the block is the one that the release
function documented for it (or the only one of that type) uses. Elements of returned arrays are blocks of their own, of the form that the
release function uses for elements.
Functions that replace a block by one of another form do so on every path on which there is a block; the same holds for blocks that are
handed out in a structure.  No function returns a pointer into a local object or a temporary.
Rule 3: what is documented to belong to another object (attribute lists, values, dictionary properties, suggestions of an error) is never a
fresh block.
"""
import os, re
from rules import common as C
from rules.C08 import ownership, elem_of, release_sites, releases, var_aliases
from vlib.model import AnalysisError, SRC
from vlib.own import vwalk
from vlib.flow import positions
from vlib.effects import is_write_op, write_target
from vlib.sym import norm as arith

RULE = 'allocation form of every result of the C interface against the release function documented for it, from the ownership summaries'
ASSUMPTIONS = ['memory allocation does not fail', 'the release function of a result is the one named in its comment in voikko.h, else the only release function for its type']

PROP = {
    'id': 'C09', 'title': 'Everything the C interface hands out can be released as documented',
    'statement': 'Each result of the C interface that the caller has to release is a block (for arrays: a null-terminated array of separate blocks) that the release function documented for it releases completely and in the matching form, '
                 'also in the deprecated interface, where results are released with free(). Results that belong to another object are not fresh blocks and stay valid as long as that object.',
    'quantifier': {'over': ['inputs', 'histories'], 'text': 'all results of all exported functions, released at any later time'},
    'why_tests_cant': 'A wrong or incomplete release shows as heap corruption or growth elsewhere; no test releases every kind of result and inspects the heap.',
    'anchors': {'files': ['libvoikko/src/voikko.h', 'libvoikko/src/voikko_deprecated.h', 'libvoikko/src/compatibility/interface.cpp', 'libvoikko/src/spellchecker/suggestions.cpp', 'libvoikko/src/morphology/interface.cpp',
                          'libvoikko/src/setup/interface.cpp', 'libvoikko/src/grammar/interface.cpp', 'libvoikko/src/hyphenator/interface.cpp'],
                'mechanism': [{'name': 'release functions', 'where': 'libvoikko/src/*/interface.cpp, libvoikko/src/spellchecker/suggestions.cpp'}],
                'observe_at': ['voikkoFreeCstr', 'voikkoFreeCstrArray', 'voikko_free_suggest_ucs4', 'voikkoFreeGrammarError', 'voikkoFreeErrorMessageCstr', 'voikko_free_dicts', 'voikko_free_mor_analysis', 'voikko_free_mor_analysis_value_cstr', 'voikkoTerminate']}}


def norm(t):
    return re.sub(r'\b(const|struct|class|enum)\b', '', t).replace(' ', '').split('::')[-1] if t else t


def headers():
    """name -> (comment, return type text, header) of the functions declared in the public headers"""
    out = {}
    for h in ('voikko.h', 'voikko_deprecated.h'):
        s = open(os.path.join(SRC, h), encoding='utf-8').read()
        for mm in re.finditer(r'/\*\*((?:[^*]|\*(?!/))*)\*/\s*([\w][\w\s\*]*?)\b(\w+)\s*\(([^;{]*?)\)\s*;', s):
            out[mm.group(3)] = (mm.group(1), mm.group(2).strip(), h)
    return out


BELONGS = re.compile(r'will be freed\s*\*?\s*upon|frees also|should not be modified or deleted', re.I)


def run(m, rep, tier):
    o, _ = ownership(m)
    exp = {f.name: f for f in m.exported()}
    docs = headers()
    rep.need(len([n for n in docs if n in exp]), 40, 'documented exported functions')
    frees = {n: f for n, f in exp.items() if re.search(r'free', n, re.I) and f.params}
    ends = {n: f for n, f in exp.items() if n == 'voikkoTerminate'}
    rep.need(len(frees), 8, 'exported release functions')
    for n, f in sorted({**frees, **ends}.items()):
        rep.count('release_functions')
        s = o.summary(f)
        fin = s.params.get(0, {'in'})
        if fin - {'freed', 'null'}:
            rep.bad('not-released', f.where(), 'the argument of %s is not released on every path on which it is not null' % n, n)
            continue
        ks = s.frees.get(0, set())
        if len(ks) != 1:
            rep.bad('mixed-release', f.where(), 'the argument of %s is released in different forms: %s' % (n, ', '.join(sorted(ks))), n)
        t = f.vars[f.params[0]]['t']
        if t.replace(' ', '').endswith('**'):
            if not elem_kinds(m, o, f):
                rep.bad('elements-not-released', f.where(), '%s does not release the elements of the array' % n, n)
    rel = releases(m, o)
    release_loops(m, o, rep)
    terminated(m, rep)
    owned_elements(m, o, rep, rel)
    shallow_copies(m, rep, rel)
    conversions(m, rep)
    structures(m, o, rep, frees)
    dangling(m, rep)
    # results
    for n, f in sorted(exp.items()):
        if not f.d['ret'].rstrip().endswith('*') or n not in docs:
            continue
        doc, rt, hdr = docs[n]
        r = o.summary(f).ret
        fresh = {x[1] for x in r if isinstance(x, tuple) and x[0] == 'F'}
        rel = [x for x in frees if re.search(r'\b%s\b' % x, doc)]
        if BELONGS.search(doc) or rt.startswith('const'):
            rep.count('borrowed_results')
            if fresh:
                rep.bad('fresh-borrowed', f.where(), '%s returns a fresh block, but its result belongs to another object and is never released by callers' % n, n)
            continue
        if n in ('voikkoInit',):
            rel = ['voikkoTerminate']
        elif hdr == 'voikko_deprecated.h':
            see = re.search(r'See (\w+)', doc)
            rel = deprecated_release(n, frees, docs, see.group(1) if see else None, exp)
        elif not rel:
            rel = sorted(x for x, g in frees.items() if docs.get(x, (0, 0, ''))[2] == hdr and norm(g.vars[g.params[0]]['t']) == norm(f.d['ret']))
            if len(rel) > 1:
                gen = [x for x in rel if x == 'voikkoFreeCstr']
                rel = gen or rel
        if not fresh:
            rep.bad('not-fresh', f.where(), '%s returns something that is not a block of its own, yet callers release it' % n, n)
            continue
        if not rel:
            raise AnalysisError('no release function found for %s' % n)
        for x in rel:
            g = (frees.get(x) or ends.get(x))
            want = o.summary(g).frees.get(0, set())
            rep.count('results_paired')
            rep.sample('pairs', '%s -> %s (%s)' % (n, x, '/'.join(sorted(want))), 40)
            if want and fresh - want and not (hdr == 'voikko_deprecated.h' and fresh & want):
                rep.bad('form', f.where(), '%s returns a block obtained with %s, but %s releases it as %s' % (n, '/'.join(sorted(fresh)), x, '/'.join(sorted(want))), '%s|%s' % (n, x))
            if 'U' in r and hdr != 'voikko_deprecated.h':
                rep.bad('not-fresh', f.where(), '%s returns on some path something that is not a block of its own' % n, n + '|some')
            if f.d['ret'].replace(' ', '').endswith('**'):
                elements(m, o, rep, f, g)
        if 'U' in r and hdr == 'voikko_deprecated.h' and not r & {('F', 'malloc')}:
            rep.bad('not-fresh', f.where(), '%s returns on some path something that is not a block of its own' % n, n + '|some')


def deprecated_release(n, frees, docs, see, exp):
    """deprecated results are released by the deprecated function whose comment points to the same modern release function"""
    if see is None or see not in exp:
        return []
    doc, rt, _ = docs[see]
    modern = [x for x in frees if re.search(r'\b%s\b' % x, doc)]
    if not modern:
        modern = [x for x, g in frees.items() if docs.get(x, (0, 0, ''))[2] == 'voikko.h' and norm(g.vars[g.params[0]]['t']) == norm(exp[see].d['ret'])]
        modern = [x for x in modern if x == 'voikkoFreeCstr'] or modern
    out = []
    for mo in modern:
        dep = [x for x in frees if docs.get(x, (0, 0, ''))[2] == 'voikko_deprecated.h' and re.search(r'\b%s\b' % mo, docs[x][0])]
        out += dep or [mo]
    return out


def elem_kinds(m, o, g, pos=0, depth=0):
    """forms in which a release function releases the elements of its argument"""
    v = g.params[pos]
    al = {v} | {x for x, y in var_aliases(g).items() if v in y}
    ks = set()
    for nd, a, k in release_sites(m, o, g):
        p, el = elem_of(g, a)
        x = g.nodes[g.strip(a)]
        if el and p[0] == 'v' and p[1] in al:
            ks |= k
        elif not el and p[0] == 'v' and p[1] in al - {v} and not g.vars[p[1]]['t'].replace(' ', '').endswith('**'):
            ks |= k
    if depth < 4:
        for nd in g.nodes:
            if nd.get('callee'):
                for t in m.targets(nd):
                    for ai, a in enumerate(nd.get('args', ())):
                        if ai < len(t.params) and g.var(a) in al and t.vars[t.params[ai]]['t'].replace(' ', '').rstrip('&').endswith('**') and t is not g:
                            ks |= elem_kinds(m, o, t, ai, depth + 1)
    return ks


def elements(m, o, rep, f, g):
    """values stored in elements of the returned array"""
    want = elem_kinds(m, o, g)
    if not want:
        return
    for h in returned_from(m, f):
        arrs = result_vars(h)
        for (fk, ni), kinds in sorted(o.elem_stores.items()):
            if fk != h.key:
                continue
            nd = h.nodes[ni]
            p, el = elem_of(h, nd['lhs'])
            if p[0] != 'v' or p[1] not in arrs:
                continue
            rep.count('array_elements_checked')
            for kind in sorted(kinds):
                if kind == 'other':
                    if not taken_over(m, o, h, nd):
                        rep.bad('shared-element', h.where(nd), 'an element of the array that %s returns is not a block of its own, yet %s releases it' % (f.name, g.name), '%s|%s' % (h.q, f.name))
                elif kind not in want:
                    rep.bad('element-form', h.where(nd), 'an element of the array that %s returns is obtained with %s, but %s releases it as %s' % (f.name, kind, g.name, '/'.join(sorted(want))), '%s|%s' % (h.q, f.name))


def refptr(t, k):
    return t.vars[t.params[k]]['t'].replace(' ', '').endswith('*&')


def result_vars(h):
    out = {v for k, v in enumerate(h.params) if refptr(h, k)}
    for nd in h.nodes:
        if nd['k'] == 'BinaryOperator' and nd['op'] == '=' and h.var(nd['lhs']) in out and h.var(nd['rhs']) is not None:
            out.add(h.var(nd['rhs']))
    for nd in h.nodes:
        if nd['k'] == 'ReturnStmt' and 'val' in nd:
            v = h.var(nd['val'])
            if v is not None:
                out.add(v)
    return out


def returned_from(m, f, depth=0, seen=None):
    """functions whose result f returns (directly or through a local), f included"""
    seen = seen if seen is not None else {f.key}
    yield f
    vs = result_vars(f)
    conv = [t for nd in f.nodes if nd.get('callee') for t in m.targets(nd) for k, a in enumerate(nd.get('args', []))
            if k < len(t.params) and f.var(a) in vs and f.var(a) is not None and refptr(t, k)]
    if conv:
        # the array is replaced by the one that the converting function makes
        for t in conv:
            if t.key not in seen:
                seen.add(t.key)
                yield t
        return
    for nd in f.nodes:
        calls = []
        if nd['k'] == 'ReturnStmt' and 'val' in nd:
            calls = [nd['val']]
        elif nd['k'] == 'DeclStmt':
            calls = [d['init'] for d in nd['decls'] if d.get('v') in vs and 'init' in d]
        elif nd['k'] == 'BinaryOperator' and nd['op'] == '=' and f.var(nd['lhs']) in vs:
            calls = [nd['rhs']]
        for c in calls:
            x = f.nodes[f.strip(c)]
            if x.get('callee'):
                for t in m.targets(x):
                    if t.key not in seen and depth < 4:
                        seen.add(t.key)
                        yield from returned_from(m, t, depth + 1, seen)


def taken_over(m, o, h, nd):
    """the element comes out of a list whose shell alone is released here: its blocks move into the array"""
    names = {x['v'] for x in h.walk(nd['rhs']) if x['k'] == 'DeclRefExpr' and x.get('dk') == 'var'}
    der = var_aliases(h)
    for n in list(names):
        names |= der.get(n, set())
    for x, a, ks in release_sites(m, o, h):
        p, el = elem_of(h, a)
        if p[0] == 'v' and not el and p[1] in names and x['k'] == 'CXXDeleteExpr':
            return True
    return False


LOOPS = ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')


def loops_of(f, i):
    return [a for a in f.ancestors(i) if a['k'] in LOOPS]


def library(m):
    return [f for f in m.fns.values() if not f.file.startswith('tools/')]


def base_of(sy, f, i):
    """symbolic base and index of an element expression; locals that walk along an array stand for themselves"""
    x = sy(f, i)
    return (x[1], x[2]) if x[0] == '[]' else (None, None)


def place(m, sy, f, nd):
    """('var', v) or ('fld', member): where the array that nd allocates goes; None: elsewhere"""
    i = nd['i']
    par = f.parent
    while i in par and f.nodes[par[i]]['k'] in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXReinterpretCastExpr', 'CXXConstCastExpr', 'ImplicitCastExpr', 'ParenExpr'):
        i = par[i]
    for d in f.nodes:
        if d['k'] == 'DeclStmt':
            for x in d['decls']:
                if x.get('init') is not None and f.strip(x['init']) in (i, nd['i']) and 'v' in x:
                    return ('var', x['v']), d['i']
        elif d['k'] == 'BinaryOperator' and d['op'] == '=' and f.strip(d['rhs']) in (i, nd['i']):
            p = f.path(d['lhs'])
            if p[0] == 'v':
                return ('var', p[1]), d['i']
            if p[0] == 'f':
                return ('fld', p[2]), d['i']
        elif d.get('callee') and any(f.strip(a) in (i, nd['i']) for a in d.get('args', ())):
            k = [n for n, a in enumerate(d['args']) if f.strip(a) in (i, nd['i'])][0]
            for t in m.targets(d):
                for w in t.nodes:
                    if w['k'] == 'BinaryOperator' and w['op'] == '=' and k < len(t.params) and t.var(w['rhs']) == t.params[k]:
                        p = t.path(w['lhs'])
                        if p[0] == 'f':
                            return ('fld', p[2]), d['i']
    return None, None


def terminated(m, rep):
    """arrays of pointers that reach the caller end with a null pointer on every path"""
    sy = C.sym(m)
    for f in library(m):
        for nd in f.nodes:
            if not (nd['k'] == 'CXXNewExpr' and nd.get('array') and nd['at'].endswith('*') and 'init' not in nd
                    and re.sub(r'\bconst\b', '', nd['at']).replace(' ', '').rstrip('*') in ('char', 'wchar_t', 'voikko_dict', 'voikko_mor_analysis', 'libvoikko::setup::Dictionary')):
                continue
            where, at = place(m, sy, f, nd)
            if where is None:
                continue
            if where[0] == 'var' and where[1] not in result_vars(f):
                continue

            def same(b):
                if b is None:
                    return False
                if where[0] == 'fld':
                    return b[0] == 'fld' and b[2] == where[1]
                return b == ('var', f.key, where[1]) or b == sy(f, nd['i']) or b[0] == 'x' and b[-1] == nd['i']
            nulls, stop = [], set()
            walkers = set()
            for w in f.nodes:
                if w['k'] == 'BinaryOperator' and w['op'] == '=':
                    t = f.nodes[f.strip(w['lhs'])]
                    b, x = base_of(sy, f, w['lhs'])
                    if same(b) and f.isnull(w['rhs']):
                        nulls.append((w, x))
                    elif b is not None and not same(b) and f.isnull(w['rhs']):
                        stop.add(w['i'])        # null stored through some other pointer: may be this array
                    if w['op'] == '=' and t['k'] == 'DeclRefExpr' and where == ('var', t.get('v')) and w['i'] != at:
                        stop.add(w['i'])
                elif w['k'] == 'CXXDeleteExpr':
                    stop.add(w['i'])
                elif w.get('callee') and w['k'] != 'CXXConstructExpr' and w['i'] != at and not w.get('cn', '').startswith('operator'):
                    for a in w.get('args', ()):
                        if same(sy(f, a)) or any(same(sy(f, y['i'])) for y in f.walk(a) if y['k'] == 'DeclRefExpr'):
                            pt = f.nodes[f.strip(a)].get('t', '')
                            if '**' in pt.replace(' ', ''):
                                stop.add(w['i'])
                elif w['k'] == 'LambdaExpr':
                    stop.add(w['i'])
            rep.count('arrays_of_results')
            for w, x in nulls:
                stop.add(w['i'])
                for l in loops_of(f, w['i']):
                    if l['i'] not in [a['i'] for a in f.ancestors(nd['i'])]:
                        for key in ('cond',):
                            if isinstance(l.get(key), int) and l[key] >= 0:
                                stop.update(y['i'] for y in f.walk(l[key]))
            r = escapes(f, at, stop, where)
            if r is not None:
                rep.bad('not-terminated', f.where(nd), 'the array made here can reach the caller without a terminating null pointer', '%s|%s' % (f.q, where[1] if where[0] == 'fld' else f.vname(where[1])))
                continue
            length(m, sy, rep, f, nd, nulls, where)


def escapes(f, at, stop, where):
    """a return (or the end) reached from node `at` without passing a node of `stop`"""
    pos = positions(f)
    if at not in pos:
        return None
    b0, k0 = pos[at]
    seen = set()
    st = [(b0, k0 + 1)]
    while st:
        b, k = st.pop()
        if (b, k) in seen:
            continue
        seen.add((b, k))
        blk = f.blocks[b]
        hit = False
        for e in blk['e'][k:]:
            if not isinstance(e, int):
                continue
            x = f.nodes[e]
            if e in stop or x['k'] == 'CXXThrowExpr':
                hit = True
                break
            if x['k'] == 'ReturnStmt':
                if where[0] == 'fld' or 'val' in x and f.var(x['val']) == where[1]:
                    return x
                if where[0] == 'var' and ('val' not in x or f.var(x['val']) is None):
                    # a different result: not this array
                    hit = True
                    break
        if hit or isinstance(blk.get('cond'), int) and blk['cond'] in stop:
            continue
        for s in blk['s']:
            if s is not None:
                if s == f.exit and where[0] == 'fld':
                    return f.nodes[at]
                st.append((s, 0))
    return None


def diff(a, b):
    """a - b if it is a constant"""
    def parts(t):
        if t[0] == 'c':
            return [], t[1]
        if t[0] == '+':
            return sorted([x for x in t[1] if x[0] != 'c'], key=repr), sum(x[1] for x in t[1] if x[0] == 'c')
        return [t], 0
    (x, c), (y, d) = parts(a), parts(b)
    return c - d if x == y else None


def length(m, sy, rep, f, nd, nulls, where):
    """the null pointer is stored in the last element"""
    size = sy(f, nd['size'])
    vs = {v for v in range(len(f.vars))}
    ok, wrong = False, None
    for w, x in nulls:
        ls = [l for l in loops_of(f, w['i']) if l['i'] not in [a['i'] for a in f.ancestors(nd['i'])]]
        if not ls:
            d = diff(size, x)
            if d is None or d == 1:
                ok = True
            else:
                wrong = (w, d)
            continue
        l = ls[0]
        if len(ls) > 1 or x[0] != 'var' or not isinstance(l.get('cond'), int) or l['cond'] < 0:
            ok = True
            continue
        c = f.nodes[f.strip(l['cond'])]
        if c['k'] != 'BinaryOperator' or c['op'] not in ('<', '<=', '!='):
            ok = True
            continue
        if sy(f, c['lhs']) != x:
            ok = True
            continue
        last = sy(f, c['rhs'])
        if c['op'] != '<=':
            last = arith('+', last, ('c', -1))
        d = diff(size, last)
        if d is None or d == 1:
            ok = True
        else:
            wrong = (w, d)
    if wrong and not ok:
        w, d = wrong
        rep.bad('not-terminated', f.where(w), 'the null pointer that ends the array is stored %s' % ('past its end' if d < 1 else '%d elements before its end: when the array is full it is not terminated' % (d - 1)),
                '%s|%s|length' % (f.q, where[1] if where[0] == 'fld' else f.vname(where[1])))


def release_loops(m, o, rep):
    """loops that release elements up to a terminating null test the element that they release, and start with the first one"""
    sy = C.sym(m)
    for f in library(m):
        for nd, a, ks in release_sites(m, o, f):
            ls = loops_of(f, nd['i'])
            if not ls or not isinstance(ls[0].get('cond'), int) or ls[0]['cond'] < 0:
                continue
            l = ls[0]
            if stepped(f, l, a):
                rep.count('element_release_loops')
                rep.bad('wrong-element', f.where(nd), 'the loop tests one element and releases the next: the first element is not released, and the terminating null is passed', f.q + '|step')
                continue
            b, x = base_of(sy, f, a)
            if b is None:
                continue
            rep.count('element_release_loops')
            body = [y for k in ('body',) if isinstance(l.get(k), int) and l[k] >= 0 for y in f.walk(l[k])]
            used = {t[2] for t in (b, x) if t[0] == 'var'}
            moved = any(is_write_op(y) and f.var(write_target(y)) in used for y in body) or any(is_write_op(y) and f.var(write_target(y)) in used for y in f.walk(l['cond']))
            if moved:
                continue
            for y in f.walk(l['cond']):
                if y['k'] not in ('UnaryOperator', 'ArraySubscriptExpr') or y['k'] == 'UnaryOperator' and y['op'] != '*':
                    continue
                b2, x2 = base_of(sy, f, y['i'])
                if b2 == b:
                    d = diff(x2, x)
                    if d:
                        rep.bad('wrong-element', f.where(nd), 'the loop tests the element at distance %d from the one it releases: the last elements are not released, or one past the end is' % d, f.q)
            start(f, sy, rep, nd, l, b, x)


def stepped(f, l, a):
    """the index is advanced between the test of an element and its release"""
    nd = f.nodes[f.strip(a)]
    step = nd.get('idx') if nd['k'] == 'ArraySubscriptExpr' else nd.get('sub') if nd['k'] == 'UnaryOperator' and nd['op'] == '*' else None
    if step is None:
        return False
    s = f.nodes[f.strip(step)]
    if s['k'] != 'UnaryOperator' or s['op'] != '++' or s.get('post'):
        return False
    v = f.var(s['sub'])
    if v is None:
        return False
    base = f.path(nd['base']) if nd['k'] == 'ArraySubscriptExpr' else None
    for y in f.walk(l['cond']):
        if base is not None and y['k'] == 'ArraySubscriptExpr' and f.path(y['base']) == base and f.var(y['idx']) == v:
            return True
        if base is None and y['k'] == 'UnaryOperator' and y['op'] == '*' and f.var(y['sub']) == v:
            return True
    return False


def start(f, sy, rep, nd, l, b, x):
    v = x[2] if x[0] == 'var' else b[2] if b[0] == 'var' else None
    if v is None or f.vars[v]['t'].replace(' ', '').endswith('**') and x[0] == 'var':
        return
    inits = []
    for d in f.nodes:
        if d['k'] == 'DeclStmt':
            inits += [y['init'] for y in d['decls'] if y.get('v') == v and 'init' in y]
        elif d['k'] == 'BinaryOperator' and d['op'] == '=' and f.var(d['lhs']) == v:
            inits.append(d['rhs'])
    if len(inits) != 1 or v in f.params:
        return
    i = sy(f, inits[0])
    off = 0
    if x[0] == 'var':
        off = i[1] if i[0] == 'c' else 0
    elif i[0] == '+':
        cs = [t for t in i[1] if t[0] == 'c']
        if len(cs) == 1 and len(i[1]) == 2 and x[0] == 'c':
            off = cs[0][1] + x[1]
    elif x[0] == 'c':
        off = x[1]
    steps = [y for y in f.walk(l['i']) if is_write_op(y) and f.var(write_target(y)) == v and not (y['k'] == 'UnaryOperator' and y['op'] == '++')
             and not (y['k'] == 'BinaryOperator' and y['op'] == '=' and y['rhs'] in inits)]
    if off and not steps:
        rep.bad('wrong-element', f.where(nd), 'the loop that releases the elements starts with element %d' % off, f.q + '|start')


def elementwise(rel):
    return {fld for fld, l in rel.items() if any(el for _, _, _, el in l)}


def owned_elements(m, o, rep, rel):
    """an element of a member whose elements are released with it is always a block of its own"""
    sy = C.sym(m)
    ew = elementwise(rel)
    for (fk, ni), kinds in sorted(o.elem_stores.items()):
        f = m.fns[fk]
        nd = f.nodes[ni]
        if f.file.startswith('tools/') or kinds != {'other'}:
            continue
        b, x = base_of(sy, f, nd['lhs'])
        if b is None or b[0] != 'fld' or b[2] not in ew:
            continue
        # only a value read out of the same kind of member of another object is certainly shared
        r = sy(f, nd['rhs'])
        rep.count('owned_element_stores')
        if r[0] == '[]' and r[1][0] == 'fld' and r[1][2] in ew and r[1] != b:
            rep.bad('shared-element', f.where(nd), 'an element of %s is the block of another object, yet it is released with this one' % b[2], '%s|%s' % (f.q, b[2]))


def pointer_members(m, rec, depth=0):
    r = m.records.get(rec)
    if not r or depth > 3:
        return
    for x in r['fields']:
        if x['t'].endswith('*'):
            yield x['q']
        else:
            yield from pointer_members(m, x['t'].replace('struct ', '').replace('class ', ''), depth + 1)


def shallow_copies(m, rep, rel):
    """a copied object does not share the blocks that are released with it"""
    sy = C.sym(m)
    ew = elementwise(rel)
    for f in library(m):
        for nd in f.nodes:
            if nd['k'] != 'CXXNewExpr' or nd.get('array') or 'ctor' not in nd:
                continue
            c = f.nodes[nd['ctor']]
            if not c.get('copy'):
                continue
            rep.count('copied_objects')
            for fld in pointer_members(m, c.get('ccls', '')):
                if fld not in ew or not copied(m, c, fld):
                    continue
                where, at = place(m, sy, f, nd)
                if where is None or where[0] != 'var' or where[1] not in result_vars(f):
                    continue
                stop = set()
                for w in f.nodes:
                    if w['k'] == 'BinaryOperator' and w['op'] == '=' and f.path(w['lhs'])[0] == 'f' and f.path(w['lhs'])[2] == fld:
                        stop.add(w['i'])
                    elif w.get('callee') and w['i'] != nd['ctor'] and any(writes_member(m, t, fld) for t in m.targets(w)):
                        stop.add(w['i'])
                    elif w['k'] == 'CXXDeleteExpr':
                        stop.add(w['i'])
                if shares(f, sy, at, stop, where, fld):
                    rep.bad('shared-member', f.where(nd), 'the object returned can share %s with the object it was copied from; both release it' % fld, '%s|%s' % (f.q, fld))


def writes_member(m, t, fld, depth=0):
    for w in t.nodes:
        if is_write_op(w):
            p = t.path(write_target(w))
            if p[0] == 'f' and p[2] == fld:
                return True
        if w.get('callee') and depth < 3 and any(writes_member(m, u, fld, depth + 1) for u in m.targets(w) if u is not t):
            return True
    return False


def copied(m, c, fld):
    """does this copy constructor take over the pointer?"""
    t = m.fns.get(c['callee'])
    if t is None or t.d.get('implicit'):
        return True
    last = False
    for w in t.nodes:
        if w['k'] == 'BinaryOperator' and w['op'] == '=':
            l, r = w['lhs'], w['rhs']
        elif w['k'] == 'CXXOperatorCallExpr' and w.get('op') == '=' and w.get('args') and all(u.d.get('implicit') for u in m.targets(w)):
            l, r = w.get('obj', w['args'][0]), w['args'][-1]
        else:
            continue
        p, q = t.path(l), t.path(r)
        if p[0] == 'f' and (p[2] == fld or fld in pointer_members(m, t.nodes[t.strip(l)].get('t', '').replace('struct ', '').replace('class ', ''))):
            last = q[0] == 'f' and q[2] == p[2]
    return last


def shares(f, sy, at, stop, where, fld):
    pos = positions(f)
    if at not in pos:
        return False
    seen, st = set(), [(pos[at][0], pos[at][1] + 1)]

    def null(t, truth):
        """does this condition, when it has this outcome, say that the member is null?"""
        if t[0] == 'u!':
            return null(t[1], not truth)
        if t[0] in ('b==', 'b!='):
            for a, c in ((t[1], t[2]), (t[2], t[1])):
                if c == ('c', 0):
                    return null(a, truth != (t[0] == 'b=='))
            return False
        if t[0] in ('b||', 'b&&'):
            # `or` is false / `and` is true: both sides are known; otherwise either may have decided
            every = any if truth == (t[0] == 'b&&') else all
            return every(null(x, truth) for x in t[1:])
        return t[0] == 'fld' and t[2] == fld and not truth

    def nulltest(i, truth):
        return null(sy(f, i), truth)
    while st:
        b, k = st.pop()
        if (b, k) in seen:
            continue
        seen.add((b, k))
        blk = f.blocks[b]
        hit = False
        for e in blk['e'][k:]:
            if isinstance(e, int):
                if e in stop or f.nodes[e]['k'] == 'CXXThrowExpr':
                    hit = True
                    break
                if f.nodes[e]['k'] == 'ReturnStmt':
                    if 'val' in f.nodes[e] and f.var(f.nodes[e]['val']) == where[1]:
                        return True
                    hit = True
                    break
        if hit:
            continue
        for n, s in enumerate(blk['s']):
            if s is None:
                continue
            if isinstance(blk.get('cond'), int) and len(blk['s']) == 2 and nulltest(blk['cond'], n == 0):
                continue
            st.append((s, 0))
    return False


def null_side(f, i, truth):
    """(expression, True) when the condition i with this outcome says that a pointer is null"""
    i = f.strip(i)
    nd = f.nodes[i]
    if nd['k'] == 'DeclRefExpr' and not nd.get('t', '').rstrip().endswith('*'):
        v = f.var(i)
        init = [d['init'] for x in f.nodes if x['k'] == 'DeclStmt' for d in x['decls'] if d.get('v') == v and 'init' in d]
        sets = [x for x in f.nodes if x['k'] in ('BinaryOperator', 'CompoundAssignOperator') and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>=') and f.var(x['lhs']) == v]
        return null_side(f, init[0], truth) if len(init) == 1 and not sets else i
    if nd['k'] == 'CallExpr' and nd.get('t', '').rstrip() in ('bool', '_Bool', 'int'):
        return i
    if nd['k'] == 'UnaryOperator' and nd['op'] == '!':
        return null_side(f, nd['sub'], not truth)
    if nd['k'] == 'BinaryOperator' and nd['op'] in ('==', '!='):
        for a, b in ((nd['lhs'], nd['rhs']), (nd['rhs'], nd['lhs'])):
            if f.isnull(b) or f.nodes[f.strip(b)].get('ev') == 0:
                return f.strip(a) if (nd['op'] == '==') == truth else None
        return None
    if nd['k'] in ('DeclRefExpr', 'ArraySubscriptExpr', 'MemberExpr', 'CallExpr', 'UnaryOperator') and not truth:
        return i
    return None


def conversions(m, rep):
    """functions that replace the block in a reference parameter by a malloc block: on every path, unless there is none or malloc failed"""
    for f in library(m):
        if f.entry is None:
            continue
        for k, v in enumerate(f.params):
            if not refptr(f, k):
                continue
            sets = {nd['i'] for nd in f.nodes if nd['k'] == 'BinaryOperator' and nd['op'] == '=' and f.var(nd['lhs']) == v}
            if not sets or not any(nd.get('cn') in ('malloc', 'calloc', 'strdup') for nd in f.nodes):
                continue
            if not any(nd['k'] == 'CXXDeleteExpr' and f.var(nd.get('sub', nd.get('arg', -1))) == v for nd in f.nodes if isinstance(nd.get('sub', nd.get('arg')), int)):
                continue
            array = f.vars[v]['t'].replace(' ', '').endswith('**&')
            rep.count('converting_functions')
            seen, st = {f.entry}, [f.entry]
            bad = None
            while st and bad is None:
                b = st.pop()
                blk = f.blocks[b]
                if any(isinstance(e, int) and (e in sets or any(x['i'] in sets for x in f.walk(e)) or f.nodes[e]['k'] == 'CXXThrowExpr') for e in blk['e']):
                    continue
                for n, t in enumerate(blk['s']):
                    if t is None:
                        continue
                    if isinstance(blk.get('cond'), int) and len(blk['s']) == 2:
                        x = null_side(f, blk['cond'], n == 0)
                        ty = f.nodes[x].get('t', '') if x is not None else ''
                        if x is not None and (ty.rstrip().endswith('*') or array or ty.rstrip() in ('bool', '_Bool', 'int')):
                            continue
                    if t == f.exit:
                        r = [f.nodes[e] for e in blk['e'] if isinstance(e, int) and f.nodes[e]['k'] == 'ReturnStmt']
                        bad = r[0] if r else f.nodes[0]
                        break
                    if t not in seen:
                        seen.add(t)
                        st.append(t)
            if bad is not None:
                rep.bad('not-converted', f.where(bad), '%s returns here without having replaced the block by one that can be released with free()' % f.q, f.q)


def form(m, o, f, i, depth=0):
    """forms of the block that expression i gives; None: not known"""
    i = f.strip(i)
    nd = f.nodes[i]
    while nd['k'] in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXReinterpretCastExpr', 'CXXConstCastExpr', 'ImplicitCastExpr', 'ParenExpr') and isinstance(nd.get('sub'), int):
        i = f.strip(nd['sub'])
        nd = f.nodes[i]
    if f.isnull(i):
        return set()
    if nd['k'] == 'CXXNewExpr':
        return {'new[]' if nd.get('array') else 'new'}
    if nd['k'] == 'StringLiteral':
        return {'constant'}
    if nd['k'] == 'ConditionalOperator':
        a, b = (form(m, o, f, nd[x], depth) if isinstance(nd.get(x), int) else None for x in ('then', 'else'))
        return None if a is None or b is None else a | b
    if nd.get('cn') in ('malloc', 'calloc', 'strdup', 'realloc'):
        return {'malloc'}
    if nd.get('callee'):
        out = set()
        for t in m.targets(nd):
            r = o.summary(t).ret
            if 'U' in r:
                return None
            out |= {x[1] for x in r if isinstance(x, tuple) and x[0] == 'F'}
        return out or None
    v = f.var(i)
    if v is not None and depth < 3:
        out = set()
        n = 0
        for x in f.nodes:
            if x['k'] == 'DeclStmt':
                src = [d['init'] for d in x['decls'] if d.get('v') == v and isinstance(d.get('init'), int)]
            elif x['k'] == 'BinaryOperator' and x['op'] == '=' and f.var(x['lhs']) == v:
                src = [x['rhs']]
            elif x.get('callee') and any(f.var(a) == v and ai < len(t.params) and t.vars[t.params[ai]]['t'].replace(' ', '').endswith('*&') for t in m.targets(x) for ai, a in enumerate(x.get('args', ()))):
                return None
            else:
                continue
            for y in src:
                n += 1
                z = form(m, o, f, y, depth + 1)
                if z is None:
                    return None
                out |= z
        return out if n else None
    return None


def structures(m, o, rep, frees):
    """blocks handed out in a structure returned by value, released as its declaration says"""
    s = open(os.path.join(SRC, 'voikko_structs.h'), encoding='utf-8').read()
    docs = {}
    for mm in re.finditer(r'/\*\*?((?:[^*]|\*(?!/))*)\*/\s*[\w\s\*]*?\b(\w+)\s*;', s):
        x = [n for n in frees if re.search(r'\b%s\b' % n, mm.group(1))]
        if x:
            docs[mm.group(2)] = x[0]
    for f in library(m):
        rt = f.d['ret'].replace('struct ', '').strip()
        if rt != 'voikko_grammar_error':
            continue
        for nd in f.nodes:
            if nd['k'] != 'BinaryOperator' or nd['op'] != '=':
                continue
            l = f.nodes[f.strip(nd['lhs'])]
            el = False
            if l['k'] == 'ArraySubscriptExpr':
                el = True
                l = f.nodes[f.strip(l['base'])]
            if l['k'] != 'MemberExpr' or not l.get('m', '').startswith('voikko_grammar_error::') or l.get('mn') not in docs:
                continue
            g = frees[docs[l['mn']]]
            want = elem_kinds(m, o, g) if el else o.summary(g).frees.get(0, set())
            have = form(m, o, f, nd['rhs'])
            rep.count('structure_members')
            if have and want and have - {w for w in want} - ({'malloc'} if 'free' in want or 'malloc' in want else set()):
                rep.bad('form', f.where(nd), '%s %s of the structure that %s returns is obtained with %s, but %s releases it as %s' % ('an element of' if el else 'the block', l['mn'], f.name, '/'.join(sorted(have)), g.name, '/'.join(sorted(want))), '%s|%s|%s' % (f.q, l['mn'], el))


INTO = ('c_str', 'data')


def dangling(m, rep):
    """pointers into local strings and temporaries that a function returns"""
    for f in library(m):
        if not f.d['ret'].rstrip().endswith('*'):
            continue
        src = {}
        for nd in f.nodes:
            if nd['k'] == 'DeclStmt':
                for d in nd['decls']:
                    if 'v' in d and isinstance(d.get('init'), int):
                        src.setdefault(d['v'], []).append(d['init'])
            elif nd['k'] == 'BinaryOperator' and nd['op'] == '=' and f.var(nd['lhs']) is not None:
                src.setdefault(f.var(nd['lhs']), []).append(nd['rhs'])

        def local(i, depth=0):
            """the object expression i is a local object or a temporary"""
            i = f.strip(i)
            x = f.nodes[i]
            while x['k'] in ('MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ExprWithCleanups', 'ParenExpr', 'ImplicitCastExpr') and isinstance(x.get('sub'), int):
                i = f.strip(x['sub'])
                x = f.nodes[i]
            if x['k'] == 'DeclRefExpr':
                v = x.get('v')
                if v is None or x.get('dk') not in ('var', None):
                    return None
                d = f.vars[v]
                if d.get('static') or d['t'].rstrip().endswith(('&', '*')):
                    return None
                return 'the local object %s' % d['n']
            if x.get('callee') and not x.get('lv') and not x.get('t', '').rstrip().endswith('*'):
                return 'a temporary, the result of %s' % x.get('cn')
            if x['k'] == 'CXXMemberCallExpr' and x.get('lv') and depth < 4:
                # a reference to a member of its object
                for t in m.targets(x):
                    for r in t.nodes:
                        if r['k'] == 'ReturnStmt' and 'val' in r:
                            y = t.nodes[t.strip(r['val'])]
                            if y['k'] != 'MemberExpr' or y.get('mk') != 'field' or y.get('t', '').rstrip().endswith('*'):
                                return None
                if not m.targets(x) or 'obj' not in x or f.nodes[f.strip(x['obj'])].get('t', '').rstrip().endswith('*'):
                    return None
                return local(x['obj'], depth + 1)
            if x['k'] == 'MemberExpr' and x.get('mk') == 'field' and not x.get('arrow') and not x.get('t', '').rstrip().endswith('&') and isinstance(x.get('base'), int) and depth < 4:
                return local(x['base'], depth + 1)
            return None

        def origin(i, depth=0):
            i = f.strip(i)
            x = f.nodes[i]
            if x['k'] == 'CXXMemberCallExpr' and x.get('cn') in INTO and x.get('ext') and isinstance(x.get('obj'), int):
                return local(x['obj'])
            if x['k'] in ('CStyleCastExpr', 'CXXConstCastExpr', 'CXXStaticCastExpr', 'CXXReinterpretCastExpr') and isinstance(x.get('sub'), int):
                return origin(x['sub'], depth)
            if x['k'] == 'ConditionalOperator':
                for y in ('then', 'else'):
                    if isinstance(x.get(y), int) and origin(x[y], depth):
                        return origin(x[y], depth)
                return None
            v = f.var(i)
            if v is not None and depth < 3 and v not in f.params and len(src.get(v, [])) == 1:
                return origin(src[v][0], depth + 1)
            return None
        for nd in f.nodes:
            if nd['k'] == 'ReturnStmt' and 'val' in nd:
                rep.count('returned_pointers')
                w = origin(nd['val'])
                if w:
                    rep.bad('dangling', f.where(nd), '%s returns a pointer into %s, which does not exist any more when the caller gets it' % (f.q, w), f.q)
