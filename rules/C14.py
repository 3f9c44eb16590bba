"""Analyses report documented attribute names with documented values that stay valid.

Rule 1: the tables between attribute keys and names agree with the enumeration of keys, cover it, and have room for all of it.
Rule 2: every value that is stored for an attribute with a closed set of values is one of the values voikkoGetAttributeValues lists for it, and is
mentioned in the section of that attribute in doc/morphological-analysis.txt; all word classes and cases of the documentation can occur.
Rule 3: a value stored without transfer of ownership is a constant; a value stored with transfer of ownership is a fresh block, never a constant.
Rule 4: a value that the library itself compares an attribute with is one that some analysis can contain.
"""
import os, re
from vlib.model import AnalysisError, REPO
from vlib.origin import Origins, text

RULE = 'origins of every key and value stored in an analysis and of every value listed for an attribute (through helpers, tables and containers), compared with the enumeration, the listing function and the documentation'
ASSUMPTIONS = ['the text of doc/morphological-analysis.txt is the specification of attribute values']

PROP = {
    'id': 'C14', 'title': 'Analysis attributes have documented names and values',
    'statement': 'Each attribute of a morphological analysis is reported under its own documented name; the value of an attribute with a closed set of values is always one of the values that voikkoGetAttributeValues lists for that attribute and that '
                 'doc/morphological-analysis.txt documents; the listed values of CLASS and SIJAMUOTO are the documented ones. The library itself tests attributes only for values that analyses can contain. Values of attributes stay valid as long as the analysis: '
                 'constants are never released and allocated values are owned by the analysis.',
    'quantifier': {'over': ['inputs'], 'text': 'all words, all analyses and all attributes'},
    'why_tests_cant': 'Tests look at some attributes of some words; a value that only few words have, or a list of values that lacks one, is not sampled.',
    'anchors': {'files': ['libvoikko/src/morphology/Analysis.cpp', 'libvoikko/src/morphology/Analysis.hpp', 'libvoikko/src/morphology/FinnishVfstAnalyzer.cpp', 'libvoikko/src/morphology/interface.cpp', 'libvoikko/doc/morphological-analysis.txt'],
                'mechanism': [{'name': 'key and name tables', 'where': 'libvoikko/src/morphology/Analysis.cpp'}, {'name': 'tag to value maps', 'where': 'libvoikko/src/morphology/FinnishVfstAnalyzer.cpp'}],
                'observe_at': ['voikko_mor_analysis_keys', 'voikko_mor_analysis_value_cstr', 'voikkoGetAttributeValues']}}


def doc_sections():
    p = os.path.join(REPO, 'libvoikko', 'doc', 'morphological-analysis.txt')
    try:
        lines = open(p, encoding='utf-8', errors='replace').read().split('\n')
    except OSError:
        return {}
    out = {}
    cur = None
    for i, l in enumerate(lines):
        if i + 1 < len(lines) and re.match(r'^ =+$', lines[i + 1]) and l.startswith(' ') and l.strip():
            h = re.match(r'^ (?:Extensions to )?([A-Z_]+)(?: \(.*\))?$', l)
            cur = h.group(1) if h else None
        elif cur:
            out.setdefault(cur, []).append(l)
    return {k: '\n'.join(v) for k, v in out.items()}


def bullets(sec):
    return {re.match(r'^\s+- ([\w-]+)', l).group(1) for l in sec.split('\n') if re.match(r'^\s+- ([\w-]+)', l)}


def mentioned(v, sec):
    return re.search(r'(?<![\w-])' + re.escape(v) + r'(?![\w-])', sec) is not None


def key_enum(m):
    for q, e in m.enums.items():
        if q.endswith('voikko_mor_analysis::Key') or q.endswith('Analysis::Key'):
            return q, e
    return None, None


def enumerators(e):
    return {x['n']: x['v'] for x in e.get('c', e.get('vals', e.get('enumerators', [])))}


def run(m, rep, tier):
    q, e = key_enum(m)
    if e is None:
        rep.note('enumeration of attribute keys not found')
        return
    names = enumerators(e)
    rep.cov['attribute_keys'] = len(names)
    og = Origins(m)
    check_tables(m, rep, names, q)
    stored = check_stores(m, rep, og, names)
    check_listing(m, rep, og, names, stored)
    check_comparisons(m, rep, og, stored, names)


def check_tables(m, rep, names, q):
    byval = {v: n for n, v in names.items()}
    gl = m.globals.values() if isinstance(m.globals, dict) else m.globals
    seen = 0
    for g in gl:
        if not g['file'].startswith('morphology/'):
            continue
        it = g.get('init') or {}
        ls = flat(it)
        strs = [x['s'] for x in ls if isinstance(x, dict) and 's' in x]
        pairs = [(x['args'][0]['s'], x['args'][1]['ev']) for x in ls if isinstance(x, dict) and len(x.get('args', ())) == 2 and 's' in x['args'][0] and 'ev' in x['args'][1] and str(x['args'][1].get('ref', '')).startswith(q)]
        pairs += [(x['args'][1]['s'], x['args'][0]['ev']) for x in ls if isinstance(x, dict) and len(x.get('args', ())) == 2 and 's' in x['args'][1] and 'ev' in x['args'][0] and str(x['args'][0].get('ref', '')).startswith(q)]
        where = 'libvoikko/src/%s:%d (%s)' % (g['file'], g.get('line', 0), g['n'])
        if len([s for s in strs if s in names]) >= 3 and len(strs) == len(ls):
            seen += 1
            rep.count('name_tables')
            for i, s in enumerate(strs):
                rep.count('table_entries')
                if byval.get(i) != s:
                    rep.bad('table', where, 'entry %d is "%s" but the key with that value is %s' % (i, s, byval.get(i, 'not defined')), '%s|%d' % (g['n'], i))
            n = re.search(r',\s*(\d+)>$', g.get('t', ''))
            size = max(len(strs), int(n.group(1)) if n else 0)
            for v, nm in byval.items():
                if v >= len(strs):
                    rep.bad('table', where, 'there is no name for the key %s' % nm, '%s|%s' % (g['n'], nm))
        elif len(pairs) >= 3:
            seen += 1
            rep.count('name_tables')
            d = {}
            for s, v in pairs:
                rep.count('table_entries')
                if byval.get(v) != s:
                    rep.bad('table', where, 'the name "%s" stands for the key %s' % (s, byval.get(v, v)), '%s|%s' % (g['n'], s))
                d[s] = v
            for nm in names:
                if nm not in d and len(pairs) == len(ls):
                    rep.bad('table', where, 'the attribute %s has no entry' % nm, '%s|%s' % (g['n'], nm))
    if not seen:
        rep.note('no tables between attribute keys and names found')
    for r in m.records.values():
        if not r.get('q', r.get('n', '')).endswith('voikko_mor_analysis'):
            continue
        for fl in r.get('fields', ()):
            b = re.match(r'^std::bitset<(\d+)', fl.get('t', ''))
            if b and int(b.group(1)) <= max(names.values()):
                rep.bad('table', 'libvoikko/src/morphology/Analysis.hpp (voikko_mor_analysis::%s)' % fl.get('n'), 'room for %s attributes, there are %d' % (b.group(1), len(names)), 'bitset')


def flat(it):
    """elements of the (nested) initialiser"""
    if not isinstance(it, dict):
        return []
    if 'list' in it:
        ls = it['list']
        if len(ls) == 1 and isinstance(ls[0], dict) and 'list' in ls[0]:
            return flat(ls[0])
        return ls
    for x in it.get('args', []):
        l = flat(x)
        if l:
            return l
    return []


def keys_of(m, og, f, i, ctx):
    """key values an argument can have"""
    i = f.strip(i)
    nd = f.nodes[i]
    if isinstance(nd.get('ev'), int):
        return {nd['ev']}
    if nd['k'] == 'DeclRefExpr' and nd.get('dk') == 'var':
        v = nd['v']
        if v in f.params and ctx:
            g, call = ctx[0]
            k = f.params.index(v)
            if k < len(call.get('args', ())):
                return keys_of(m, og, g, call['args'][k], ctx[1:])
            return None
        if v in f.params:
            return None
        out = set()
        for d in og.defs(f, v):
            x = keys_of(m, og, f, d, ctx)
            if x is None:
                return None
            out |= x
        return out or None
    if nd['k'] == 'ConditionalOperator':
        a, b = keys_of(m, og, f, nd['then'], ctx), keys_of(m, og, f, nd['else'], ctx)
        return None if a is None or b is None else a | b
    return None


def needs_ctx(f, call):
    """the key or value comes from a parameter of f"""
    for a in call.get('args', ()):
        for nd in f.walk(a):
            if nd['k'] == 'DeclRefExpr' and nd.get('dk') == 'var' and nd['v'] in f.params:
                return True
    return any_param(f)


def any_param(f):
    return any('map<' in f.vars[p]['t'] or f.vars[p]['t'].endswith('Key') for p in f.params)


def contexts(og, f, call, depth=3):
    if depth == 0 or not needs_ctx(f, call):
        return [()]
    out = []
    for g, c in og.callers.get(f.key, []):
        for x in contexts(og, g, c, depth - 1):
            out.append(((g, c),) + x)
    return out or [()]


def guarded_key(m, f, call, argi):
    """the key is compared with constants on the way: `if (key == Key::CLASS)` - value of the branch, or None"""
    nd = f.nodes[f.strip(argi)]
    if nd['k'] != 'DeclRefExpr' or nd.get('dk') != 'var':
        return None
    v = nd['v']
    prev = call['i']
    for a in f.ancestors(call['i']):
        if a['k'] == 'IfStmt' and 'then' in a and prev in {x['i'] for x in f.walk(a['then'])}:
            c = f.nodes[f.strip(a['cond'])]
            if c['k'] == 'BinaryOperator' and c['op'] == '==':
                for x, y in ((c['lhs'], c['rhs']), (c['rhs'], c['lhs'])):
                    xn, yn = f.nodes[f.strip(x)], f.nodes[f.strip(y)]
                    if xn['k'] == 'DeclRefExpr' and xn.get('v') == v and isinstance(yn.get('ev'), int):
                        return {yn['ev']}
    return None


def values(og, os_, seen=frozenset()):
    """literal texts behind a set of origins; None if some are unknown"""
    out = set()
    ok = True
    for o in os_:
        if o[0] == 'lit':
            out.add(o[1])
        elif o[0] in ('null', 'attr'):
            pass        # values of other attributes are added by the caller
        elif o[0] == 'elem' and o[1] in seen:
            pass
        elif o[0] == 'elem' and o[1][0] in ('field', 'global'):
            c = og.contents(o[1])
            if c is None:
                ok = False
            else:
                x, k = values(og, c, seen | {o[1]})
                out |= x
                ok = ok and k
        else:
            ok = False
    return out, ok


def check_stores(m, rep, og, names):
    byval = {v: n for n, v in names.items()}
    stored = {}
    copies = []
    n = 0
    for f in sorted(m.fns.values(), key=lambda x: x.key):
        if f.cls and f.cls.endswith('voikko_mor_analysis'):
            continue
        for nd in f.calls():
            if nd.get('cn') not in ('addAttribute', 'addConstAttribute') or len(nd.get('args', ())) != 2:
                continue
            n += 1
            rep.count('stores')
            const = nd['cn'] == 'addConstAttribute'
            for ctx in contexts(og, f, nd):
                rep.count('store_contexts')
                ks = keys_of(m, og, f, nd['args'][0], ctx)
                if ks is None:
                    ks = guarded_key(m, f, nd, nd['args'][0])
                os_ = og.origins(f, nd['args'][1], ctx)
                via = f.where(nd) + (' called from ' + ctx[0][0].where(ctx[0][1]) if ctx else '')
                # ownership
                if const:
                    for o in os_:
                        flatv = [o]
                        if o[0] == 'elem' and o[1][0] in ('field', 'global'):
                            flatv = list(og.contents(o[1]) or [])
                        for x in flatv:
                            if x[0] == 'new' or x[0] == 'local' or x[0] == 'field' and x[1].split('::')[-1].lower().endswith('buffer'):
                                rep.bad('ownership', via, 'a value that is not a constant (%s) is stored without transfer of ownership: it is not released with the analysis or does not live as long' % describe(x), '%s|const|%s' % (f.q, describe(x)))
                else:
                    for o in os_:
                        if o[0] == 'lit' or o[0] == 'elem' and o[1][0] in ('field', 'global') and (lambda c: c and all(x[0] == 'lit' for x in c))(og.contents(o[1])):
                            rep.bad('ownership', via, 'a constant (%s) is stored as a value that is released with the analysis' % describe(o), '%s|owned|%s' % (f.q, describe(o)))
                        elif o[0] in ('field', 'in') or o[0] == 'local':
                            t = 'array' if o[0] == 'local' else o[1].split('::')[-1]
                            if o[0] == 'field' and 'wchar_t' in field_type(m, o[1]):
                                rep.bad('ownership', via, 'memory of %s is stored as a value that is released with the analysis' % t, '%s|owned|%s' % (f.q, t))
                if ks is None:
                    continue
                vs, ok = values(og, os_)
                for k in ks:
                    d = stored.setdefault(byval.get(k, str(k)), {})
                    for v in vs:
                        d.setdefault(v, via)
                    for o in os_:
                        if o[0] == 'attr' and o[1] != k:
                            copies.append((byval.get(o[1]), byval.get(k, str(k)), via))
                    if not ok and not const:
                        stored.setdefault(byval.get(k, str(k)), {}).setdefault(None, via)
    for _ in range(4):
        for a, b, via in copies:
            for v in stored.get(a, {None: via}):
                stored[b].setdefault(v, via)
    rep.need(n, 4, 'stores of analysis attributes')
    secs = doc_sections()
    for a, vs in sorted(stored.items()):
        if None in vs:
            continue
        sec = secs.get(a)
        for v, via in sorted(vs.items()):
            rep.count('stored_values')
            if sec and not mentioned(v, sec):
                rep.bad('value', via, 'the value "%s" of attribute %s is not documented' % (v, a), '%s|%s' % (a, v))
        if sec and a in ('CLASS', 'SIJAMUOTO'):
            for b in bullets(sec) - set(vs):
                rep.bad('value', 'libvoikko/doc/morphological-analysis.txt', 'the documented value "%s" of attribute %s cannot occur' % (b, a), '%s|missing|%s' % (a, b))
    rep.sample('closed attributes', ', '.join('%s(%d)' % (a, len(v)) for a, v in sorted(stored.items()) if None not in v))
    return stored


def field_type(m, q):
    for r in m.records.values():
        for fl in r.get('fields', ()):
            if (r.get('q') or r.get('n', '')) + '::' + fl.get('n', '') == q:
                return fl.get('t', '')
    return ''


def describe(o):
    if o[0] == 'lit':
        return '"%s"' % o[1]
    if o[0] == 'new':
        return 'block allocated in %s' % o[1]
    if o[0] == 'elem':
        return 'element of %s' % str(o[1][-1]).split('::')[-1]
    return ' '.join(str(x).split('::')[-1] for x in o[:2])


def lit_compare(f, i):
    """(literal, polarity) of a comparison of a string with a literal"""
    i = f.strip(i)
    nd = f.nodes[i]
    while nd['k'] == 'BinaryOperator' and nd['op'] in ('||', '&&'):
        nd = f.nodes[f.strip(nd['rhs'])]       # the block evaluates the last operand
    pol = True
    while nd['k'] == 'UnaryOperator' and nd['op'] == '!':
        pol = not pol
        nd = f.nodes[f.strip(nd['sub'])]
    if nd.get('cn') in ('operator==', 'operator!='):
        for a in nd.get('args', ()):
            for x in f.walk(a):
                if x['k'] == 'StringLiteral':
                    return text(x), pol == (nd['cn'] == 'operator==')
    if nd.get('cn') in ('strcmp', 'compare', 'wcscmp'):
        for a in nd.get('args', ()):
            x = f.nodes[f.strip(a)]
            if x['k'] == 'StringLiteral':
                return text(x), not pol
    if nd['k'] == 'BinaryOperator' and nd['op'] in ('==', '!='):
        for a, b in ((nd['lhs'], nd['rhs']), (nd['rhs'], nd['lhs'])):
            if f.nodes[f.strip(b)].get('ev') == 0:
                r = lit_compare(f, a)
                if r:
                    return r[0], (r[1] != (nd['op'] == '==')) == pol
    return None


def name_test(f, i, cand, depth=0):
    """outcome of a condition when the compared string is cand; None if it does not follow"""
    i = f.strip(i)
    nd = f.nodes[i]
    if depth > 8:
        return None
    if nd['k'] == 'BinaryOperator' and nd['op'] in ('||', '&&'):
        a, b = name_test(f, nd['lhs'], cand, depth + 1), name_test(f, nd['rhs'], cand, depth + 1)
        dom = nd['op'] == '||'
        if a is dom or b is dom:
            return dom
        return None if a is None or b is None else not dom
    if nd['k'] == 'UnaryOperator' and nd['op'] == '!':
        r = name_test(f, nd['sub'], cand, depth + 1)
        return None if r is None else not r
    if nd['k'] == 'DeclRefExpr' and nd.get('t') in ('bool', 'const bool'):
        v = f.var(i)
        init = [d['init'] for x in f.nodes if x['k'] == 'DeclStmt' for d in x['decls'] if d.get('v') == v and 'init' in d]
        sets = [x for x in f.nodes if x['k'] in ('BinaryOperator', 'CompoundAssignOperator') and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>=') and f.var(x['lhs']) == v]
        return name_test(f, init[0], cand, depth + 1) if len(init) == 1 and not sets else None
    c = lit_compare(f, i)
    return None if c is None else (c[0] == cand) == c[1]


def check_listing(m, rep, og, names, stored):
    fs = [f for f in m.fns.values() if f.name == 'getAttributeValues' and f.blocks]
    listed = {}
    at = {}
    dynamic = False
    for f in fs:
        for lit, vals, ok, last in listing_paths(m, og, f):
            rep.count('listing_paths')
            if lit is None:
                if vals or not ok:
                    dynamic = True      # values listed for names that are not compared with constants here
                continue
            if (lit, f.key) in at:      # loops and branches: what some path lists
                l = at[lit, f.key]
                l[0] |= vals
                l[1] = l[1] and ok
            else:
                at[lit, f.key] = [set(vals), ok, f]
                listed.setdefault(lit, []).append(at[lit, f.key])
    secs = doc_sections()
    for a, ls in sorted(listed.items()):
        if not any(l[0] for l in ls):
            continue
        rep.count('listed_attributes')
        for vals, ok, f in ls:
            if not ok:
                rep.note('values listed for %s not resolved' % a)
                continue
            if not vals:
                continue
            if a not in names:
                rep.bad('listing', f.where(), 'values are listed for "%s", which is not an attribute' % a, 'name|%s' % a)
                continue
            st = stored.get(a, {})
            for v in sorted(x for x in st if x is not None):
                rep.count('listing_obligations')
                if v not in vals:
                    rep.bad('listing', f.where(), 'analyses can have the value "%s" of attribute %s (%s), which is not listed' % (v, a, st[v]), '%s|%s' % (a, v))
            for v in sorted(vals):
                if st and None not in st and v not in st:
                    rep.bad('listing', f.where(), 'the value "%s" is listed for attribute %s, but no analysis has it' % (v, a), '%s|never|%s' % (a, v))
                if a in secs and not mentioned(v, secs[a]):
                    rep.bad('listing', f.where(), 'the value "%s" is listed for attribute %s but not documented for it' % (v, a), '%s|undocumented|%s' % (a, v))
    closed = {a for a, v in stored.items() if v and None not in v}
    if listed and not dynamic:
        for a in sorted(closed - {a for a, ls in listed.items() if any(l[0] or not l[1] for l in ls)}):
            rep.bad('listing', fs[0].where(), 'attribute %s has a closed set of values but none are listed for it' % a, '%s|none' % a)


def listing_paths(m, og, f):
    out = []
    budget = [4000]

    def contrib(i, ctx):
        """values contributed to the result by calls in the subtree"""
        vals, ok = set(), True
        for nd in f.walk(i):
            if 'obj' in nd and nd.get('cn') in ('push_back', 'push_front', 'emplace_back', 'insert'):
                v, k = values(og, og.origins(f, nd['args'][-1]))
                vals |= v
                ok = ok and k
            elif nd['k'] in ('InitListExpr', 'CXXStdInitializerListExpr'):
                for x in f.walk(nd['i']):
                    if text(x) is not None:
                        vals.add(text(x))
                    elif x['k'] == 'DeclRefExpr' and x.get('dk') in ('var', 'global'):
                        v, k = values(og, og.origins(f, x['i']))
                        vals |= v
                        ok = ok and k
            elif nd.get('callee') and m.targets(nd) and 'list<' in nd.get('t', ''):
                for g in m.targets(nd):
                    got = False
                    for x in g.calls():
                        if 'obj' in x and x.get('cn') in ('push_back', 'push_front', 'emplace_back', 'insert'):
                            v, k = values(og, og.origins(g, x['args'][-1], ((f, nd),)))
                            vals |= v
                            ok = ok and k
                            got = True
                    ok = ok and got
        return vals, ok

    def go(b, lit, vals, ok, seen):
        budget[0] -= 1
        if budget[0] < 0:
            return
        if b == f.exit:
            out.append((lit, vals, ok, None))
            return
        blk = f.blocks[b]
        vals = set(vals)
        done = set()
        for e in blk['e']:
            if isinstance(e, int) and e not in done:
                sub = {x['i'] for x in f.walk(e)}
                # only the largest statement of each tree counts
                done |= sub
        tops = []
        for e in reversed([e for e in blk['e'] if isinstance(e, int)]):
            if any(e in {x['i'] for x in f.walk(t)} for t in tops):
                continue
            tops.append(e)
        for e in tops:
            v, k = contrib(e, ())
            vals |= v
            ok = ok and k
        for idx, s in enumerate(blk['s']):
            if s is None or (b, s) in seen:
                continue
            if 'cond' in blk and len(blk['s']) == 2:
                c = name_test(f, blk['cond'], lit)
                if c is not None and c != (idx == 0):
                    continue
            go(s, lit, vals, ok, seen | {(b, s)})
    lits = set()
    for nd in f.nodes:
        c = lit_compare(f, nd['i'])
        if c and c[0] is not None:
            lits.add(c[0])
    for lit in [None] + sorted(lits):
        budget[0] = 4000
        go(f.entry, lit, set(), True, frozenset())
    return out


def check_comparisons(m, rep, og, stored, names):
    byval = {v: n for n, v in names.items()}
    everything = {v for vs in stored.values() for v in vs if v is not None}
    if not everything:
        return
    for f in m.fns.values():
        for nd in f.calls():
            if nd.get('cn') not in ('wcscmp', 'wcsncmp') or len(nd.get('args', ())) < 2:
                continue
            for x, y in ((nd['args'][0], nd['args'][1]), (nd['args'][1], nd['args'][0])):
                t = text(f.nodes[f.strip(y)])
                if t is None:
                    continue
                os_ = {o for o in og.origins(f, x) if o[0] not in ('null', 'lit')}
                attrs = {byval.get(o[1]) for o in os_ if o[0] == 'attr'}
                if not attrs or any(o[0] != 'attr' for o in os_) or None in attrs:
                    continue
                if any(not stored.get(a) or None in stored[a] for a in attrs):
                    continue        # attribute with free values
                vocab = {v for a in attrs for v in stored[a]} | {o[1] for o in og.origins(f, x) if o[0] == 'lit'}
                rep.count('comparisons')
                what = '/'.join(sorted(attrs))
                if nd['cn'] == 'wcsncmp':
                    ln = f.nodes[f.strip(nd['args'][2])].get('ev')
                    if not isinstance(ln, int):
                        continue
                    n = min(ln, len(t))
                    if not any(v[:n] == t[:n] for v in vocab):
                        rep.bad('comparison', f.where(nd), 'attribute %s is tested for a value that starts with "%s", which no analysis contains' % (what, t[:n]), '%s|%s' % (f.q, t))
                elif t not in vocab:
                    rep.bad('comparison', f.where(nd), 'attribute %s is tested for the value "%s", which no analysis contains' % (what, t), '%s|%s' % (f.q, t))
